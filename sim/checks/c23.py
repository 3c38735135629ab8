"""Path objects: operations on files and directories do what they are called, or raise."""
import errno
import os
import stat

import simenv
from base import BaseCheck
from savecheck import exc_text
from simenv import Plan, Violation, random_schedule

NAMES = ["a", "b", "c.txt", "d.s2p", "run 1", u"m\xe4t", ".hidden", "x.tar.gz", "deep", "E.TXT", ".h.txt", "v1.2", "A", "Deep", "m\xc4t"]
# names as they stand in a script, wherever it runs
TEXTS = [".", "..", "../a", "../../x.y", "./b.txt", "a/..", "a/../b", "a//b.txt", "a/", "a/b/", "..a", "...", "a.b/c", ".b", "/", "/a.txt", "a b.c d", "./.", "A/a", "a/A"]
PURE = ["abspath", "relpath", "parent", "name", "ext", "namebase", "stripext", "rejoined", "splitall", "isabs"]
ERRS = {simenv.OPEN: [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC], simenv.CLOSE: [errno.EIO, errno.EDQUOT], simenv.RENAME: [errno.EACCES, errno.EXDEV, errno.EIO],
        simenv.UNLINK: [errno.EACCES, errno.EIO, errno.EBUSY], simenv.MKDIR: [errno.ENOSPC, errno.EACCES, errno.EMLINK], simenv.RMDIR: [errno.EBUSY, errno.EACCES],
        simenv.LINK: [errno.EMLINK, errno.ENOSPC, errno.EPERM], 14: [errno.EPERM, errno.EIO, errno.EROFS]}


def os_touch(p):
    os.close(os.open(p, os.O_WRONLY | os.O_CREAT, 0o666))
    os.utime(p, None)


def os_splitall(p):
    parts = []
    while p not in (".", ".."):
        head, last = os.path.split(p)
        if head == p:
            break
        parts.append(last)
        p = head
    return "|".join([p] + parts[::-1])


def os_readlinkabs(p):
    t = os.readlink(p)
    return t if os.path.isabs(t) else os.path.abspath(os.path.join(os.path.dirname(p), t))


# name: (what the path object does, what the operating system does)
ONE = {
    "touch": (lambda p: p.touch(), os_touch),
    "remove": (lambda p: p.remove(), os.remove),
    "unlink": (lambda p: p.unlink(), os.unlink),
    "mkdir": (lambda p: p.mkdir(), os.mkdir),
    "mkdir700": (lambda p: p.mkdir(0o700), lambda p: os.mkdir(p, 0o700)),
    "makedirs": (lambda p: p.makedirs(), os.makedirs),
    "makedirs750": (lambda p: p.makedirs(0o750), lambda p: os.makedirs(p, 0o750)),
    "rmdir": (lambda p: p.rmdir(), os.rmdir),
    "removedirs": (lambda p: p.removedirs(), os.removedirs),
    "chmod": (lambda p: p.chmod(0o640), lambda p: os.chmod(p, 0o640)),
    "utime": (lambda p: p.utime((10 ** 9, 1100000000)), lambda p: os.utime(p, (10 ** 9, 1100000000))),
    "readlink": (lambda p: p.readlink(), os.readlink),
    "readlinkabs": (lambda p: p.readlinkabs(), os_readlinkabs),
    "exists": (lambda p: p.exists(), os.path.exists),
    "isfile": (lambda p: p.isfile(), os.path.isfile),
    "isdir": (lambda p: p.isdir(), os.path.isdir),
    "islink": (lambda p: p.islink(), os.path.islink),
    "size": (lambda p: p.size if p.isfile() else None, lambda p: os.path.getsize(p) if os.path.isfile(p) else None),
    "getsize": (lambda p: p.getsize() if p.isfile() else None, lambda p: os.path.getsize(p) if os.path.isfile(p) else None),
    "mode": (lambda p: p.stat().st_mode, lambda p: os.stat(p).st_mode),
    "lmode": (lambda p: p.lstat().st_mode, lambda p: os.lstat(p).st_mode),
    "old": (lambda p: p.mtime == 1100000000, lambda p: os.path.getmtime(p) == 1100000000),
    "realpath": (lambda p: p.realpath(), os.path.realpath),
    "abspath": (lambda p: p.abspath(), os.path.abspath),
    "relpath": (lambda p: p.relpath(), lambda p: os.path.relpath(p)),
    "parent": (lambda p: p.parent, os.path.dirname),
    "name": (lambda p: p.name, os.path.basename),
    "ext": (lambda p: p.ext, lambda p: os.path.splitext(p)[1]),
    "namebase": (lambda p: p.namebase, lambda p: os.path.splitext(os.path.basename(p))[0]),
    "stripext": (lambda p: p.stripext(), lambda p: os.path.splitext(p)[0]),
    "rejoined": (lambda p: p.__class__("").joinpath(*p.splitall()), lambda p: p.replace("//", "/")),
    "splitall": (lambda p: "|".join(p.splitall()), os_splitall),
    "isabs": (lambda p: p.isabs(), os.path.isabs),
    "utimef": (lambda p: p.utime((10 ** 9, 1100000000.5)), lambda p: os.utime(p, (10 ** 9, 1100000000.5))),
    "oldf": (lambda p: p.mtime == 1100000000.5, lambda p: os.path.getmtime(p) == 1100000000.5),
    "chmod1770": (lambda p: p.chmod(0o1770), lambda p: os.chmod(p, 0o1770)),
    "getcwd": (lambda p: p.getcwd(), lambda p: os.getcwd()),
}
TWO = {
    "rename": (lambda p, q: p.rename(q), os.rename),
    "renames": (lambda p, q: p.renames(q), os.renames),
    "link": (lambda p, q: p.link(q), os.link),
    "symlink": (lambda p, q: p.symlink(q), os.symlink),
    "relpathto": (lambda p, q: p.relpathto(q), lambda p, q: os.path.relpath(q, p)),
    "join": (lambda p, q: p / os.path.basename(q), lambda p, q: os.path.join(p, os.path.basename(q))),
}
WEIGHT = dict(touch=8, remove=2, mkdir=4, makedirs=5, rename=4, renames=3, removedirs=3, symlink=3, link=2, readlinkabs=2, readlink=2, relpathto=3, relpath=3)


# operations whose failure the caller must hear of
O, C, M, N, A = simenv.OPEN, simenv.CLOSE, simenv.MKDIR, simenv.RENAME, 14
MUST = dict(touch=(O, C, A), remove=(simenv.UNLINK,), unlink=(simenv.UNLINK,), mkdir=(M,), mkdir700=(M,), makedirs=(M,), makedirs750=(M,), rmdir=(simenv.RMDIR,), removedirs=(simenv.RMDIR,),
            rename=(N,), renames=(M, N), link=(simenv.LINK,), symlink=(simenv.LINK,), chmod=(A,), utime=(A,), utimef=(A,), chmod1770=(A,))


class Check(BaseCheck):
    id = "C23"
    level = "fault_enumeration"
    runs = {"quick": 1500, "thorough": 40000}
    probes = ("done", "refused", "failed_as_it_must", "touched_existing", "touched_new", "relative", "tree_changed", "touch_race", "names", "parent_stays")

    def scenario(self, r, tier):
        def where():
            return "/".join(r.choice(names) for _ in range(r.choice([1, 1, 2, 2, 3])))
        names = r.sample(NAMES, r.choice([2, 3, 5]))
        ops = [x for x in sorted(ONE) + sorted(TWO) if x != "splitall"]
        ops = [x for x in ops for _ in range(WEIGHT.get(x, 1))]
        hist = []
        for _ in range(r.choice([3, 6, 12, 25])):
            k = r.random()
            if k < 0.15:
                hist.append(["write", where(), "text %d" % r.randrange(1000)])
            elif k < 0.22:
                hist.append(["cd", where()])
            elif k < 0.32:
                if r.random() < 0.3:
                    hist.append(["relpathto", r.choice(TEXTS), r.choice(TEXTS), "text"])
                else:
                    hist.append([r.choice(PURE), r.choice(TEXTS), "text"])
            else:
                op = r.choice(ops)
                if op == "utimef":
                    hist.append([op, where(), "abs"])
                    hist.append(["oldf", hist[-1][1], "abs"])
                    continue
                if op == "removedirs" and r.random() < 0.6:
                    hist.append(["makedirs", "/".join(r.choice(names) for _ in range(r.choice([2, 3]))), "abs"])
                    hist.append([op, hist[-1][1], r.choice(["abs", "abs", "rel"])])
                    continue
                hist.append([op, where()] + ([where()] if op in TWO else []) + [r.choice(["abs", "abs", "rel", "dot"])])
                if op == "symlink":
                    for x in r.sample(["readlinkabs", "readlink", "islink", "exists", "realpath", "touch", "isdir", "isfile"], 2):
                        hist.append([x, hist[-1][2] if hist[-1][0] == "symlink" else hist[-1][1], r.choice(["abs", "rel"])])
                elif op in ("mkdir", "makedirs") and r.random() < 0.4:
                    hist.append(["cd", hist[-1][1]])
                    for x in r.sample(["relpath", "abspath", "getcwd", "relpath"], 2):
                        hist.append([x, where(), r.choice(["abs", "rel"])])
        return dict(hist=hist, umask=r.choice([0o22, 0o22, 0o27, 0o77]), race=r.choice([None, None, "new", "there"]), touchers=r.choice([1, 2]), faulty=r.random() < 0.7)

    def shrink(self, sc):
        for i in range(len(sc["hist"])):
            yield dict(sc, hist=sc["hist"][:i] + sc["hist"][i + 1:])
        for k, v in (("race", None), ("umask", 0o22), ("faulty", False)):
            if sc[k] != v:
                yield dict(sc, **{k: v})

    def tree(self, top):
        """{name: what is there}; links to the same file are known by the first name."""
        out, first = {}, {}
        for d, dirs, files in os.walk(top):
            dirs.sort()
            for x in sorted(dirs + files):
                p = os.path.join(d, x)
                st = os.lstat(p)
                rel = os.path.relpath(p, top)
                if stat.S_ISLNK(st.st_mode):
                    out[rel] = ("link", os.readlink(p).replace(top, "TOP"))
                elif stat.S_ISDIR(st.st_mode):
                    out[rel] = ("dir", oct(st.st_mode))
                else:
                    with open(p, "rb") as f:
                        out[rel] = ("file", f.read(), oct(st.st_mode), first.setdefault(st.st_ino, rel))
        return out

    def run(self, run, sc):
        from hftools import path
        rng = run.derived("c23")
        tops = [run.path("one"), run.path("two"), run.path("six")]
        umask = os.umask(sc["umask"])
        os.environ["PWD"] = run.root    # where the program was started
        try:
            self.history(run, sc, rng, path, tops)
            os.chdir(run.root)
            self.race(run, sc, rng, path)
        finally:
            os.chdir(run.root)
            os.umask(umask)

    def history(self, run, sc, rng, path, tops):
        run.clean()
        for t in tops:
            os.mkdir(t)
            with open(os.path.join(t, "keep"), "w") as f:
                f.write("keep")
        cwd = ["", ""]

        def name(k, rel, how):
            if how == "text":
                return rel
            p = os.path.join(tops[k], rel)
            if how == "rel":
                p = os.path.relpath(p, os.path.join(tops[k], cwd[0]))
            elif how == "dot":
                p = os.path.join(tops[k], ".", rel)
            return p

        def show(v):
            if isinstance(v, str):
                return ("text", str(v).replace(tops[0], "TOP").replace(tops[1], "TOP"))
            return (type(v).__name__, v)

        for n, h in enumerate(sc["hist"]):
            if h[0] == "write":
                for t in tops:
                    p = os.path.join(t, h[1])
                    if os.path.isdir(os.path.dirname(p)) and not os.path.isdir(p) and not os.path.islink(p):
                        with open(p, "w") as f:
                            f.write(h[2])
                        os.utime(p, (10 ** 9, 1100000000))
                continue
            if h[0] == "cd":
                if os.path.isdir(os.path.join(tops[0], h[1])) and os.path.realpath(os.path.join(tops[1], h[1])).startswith(tops[1]):
                    cwd[0] = h[1]
                continue
            if cwd[0] and not (os.path.isdir(os.path.join(tops[0], cwd[0])) and os.path.isdir(os.path.join(tops[1], cwd[0])) and os.path.isdir(os.path.join(tops[2], cwd[0]))):
                cwd[0] = ""
            table = ONE if h[0] in ONE else TWO
            how = h[-1]
            args = [[name(k, x, how) for x in h[1:-1]] for k in (0, 1, 2)]
            before = self.tree(tops[0])
            # the operating system's answer
            os.chdir(os.path.join(tops[0 if how == "text" else 1], cwd[0]))
            try:
                want = ("gives",) + show(table[h[0]][1](*args[1]))
            except OSError as e:
                want = ("raises", e.errno)
            os.chdir(os.path.join(tops[0], cwd[0]))
            call = lambda k=0: table[h[0]][0](*[path(x) for x in args[k]])
            what = "%s(%s)" % (h[0], ", ".join(x.replace(tops[0], "TOP") for x in args[0]))
            target = os.path.realpath(args[0][0])
            new = not os.path.exists(target)
            # a third tree shows what it asks of the operating system
            os.chdir(os.path.join(tops[2], cwd[0]))
            dry = run.execute(lambda: call(2))
            os.chdir(os.path.join(tops[0], cwd[0]))
            # failures first: nothing may change, then it works
            if sc["faulty"] and want[0] == "gives":
                cand = [r for r in dry.log if r[1] in MUST.get(h[0], ()) and not r[5]]
                if h[0] == "removedirs":
                    self.stays(run, rng, call, cand[1:], n, what, tops[0], before)
                    cand = cand[:1]
                elif cand and h[0] in ("makedirs", "makedirs750", "renames"):
                    cand = [rng.choice(cand)]   # what a failure leaves changes the next attempt
                for plan in run.plans("fault-%d" % n, [Plan([[r[0], simenv.A_ERRNO, rng.choice(ERRS[r[1]])]]) for r in cand]):
                    out = run.execute(call, plan)
                    if not out.fired:
                        continue
                    if out.exc is None:
                        raise Violation("silent-failure", "%s: %s returned normally" % (what, plan.describe()), plan)
                    if not isinstance(out.exc, OSError) or out.exc.errno != plan.faults[0][2]:
                        raise Violation("wrong-error", "%s: %s: %s" % (what, plan.describe(), exc_text(out.exc)), plan)
                    if out.leaked:
                        raise Violation("handle-left-open", "%s: %s" % (what, plan.describe()), plan)
                    now = self.tree(tops[0])
                    for k, v in before.items():
                        if now.get(k) != v:
                            raise Violation("changed-by-failure", "%s failed (%s) but changed %r" % (what, plan.describe(), k), plan)
                    if h[0] not in ("makedirs", "makedirs750", "renames", "touch") and now != before:
                        raise Violation("changed-by-failure", "%s failed (%s) but made %r" % (what, plan.describe(), sorted(set(now) - set(before))), plan)
                    run.stats.probe("failed_as_it_must")
            out = run.execute(call)
            if out.exc is None:
                got = ("gives",) + show(out.value)
            else:
                got = ("raises", getattr(out.exc, "errno", exc_text(out.exc)))
            if got != want:
                raise Violation("wrong-result", "%s %r, the operating system %r" % (what, got, want))
            if out.leaked:
                raise Violation("handle-left-open", "%s leaves %s open" % (what, out.leaked_paths))
            if h[0] in ("parent", "stripext", "abspath", "realpath", "relpath", "readlink", "readlinkabs", "relpathto", "join", "getcwd") and out.exc is None and not isinstance(out.value, path):
                raise Violation("not-a-path", "%s gives a %s" % (what, type(out.value).__name__))
            a, b = self.tree(tops[0]), self.tree(tops[1])
            if a != b:
                bad = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
                raise Violation("wrong-effect", "after %s %r is %r, should be %r" % (what, bad[0], a.get(bad[0]), b.get(bad[0])))
            if h[0] == "touch" and out.exc is None:
                # its time is now, by the disk's clock or the system's
                mark = run.path("mark")
                open(mark, "w").close()
                m = os.stat(args[0][0]).st_mtime
                if abs(m - os.stat(mark).st_mtime) > 3600 and abs(m - simenv.T0 / 1e9) > 3600:
                    raise Violation("wrong-time", "after %s the file is dated %d" % (what, m))
                os.unlink(mark)
                run.stats.probe("touched_new" if new else "touched_existing")
            run.stats.probe("done" if out.exc is None else "refused")
            if how == "rel":
                run.stats.probe("relative")
            if a != before:
                run.stats.probe("tree_changed")
            if h[0] in ("relpathto", "relpath", "rejoined", "parent", "stripext"):
                run.stats.probe("names")
            run.stats.note(what, got)
        if not run.stats.samples:
            run.stats.samples.append({"history": sc["hist"]})

    def stays(self, run, rng, call, later, n, what, top, before):
        """A parent that cannot be removed stays, without complaint."""
        for plan in run.plans("stays-%d" % n, [Plan([[r[0], simenv.A_ERRNO, rng.choice(ERRS[r[1]])]]) for r in later]):
            out = run.execute(call, plan)
            if out.exc is not None and out.fired:
                raise Violation("wrong-error", "%s: %s: %s" % (what, plan.describe(), exc_text(out.exc)), plan)
            now = self.tree(top)
            gone = sorted(set(before) - set(now))
            if out.fired and (set(now) - set(before) or any(now[k] != before[k] for k in now) or not gone or any(before[k][0] != "dir" for k in gone)):
                raise Violation("changed-by-failure", "%s: %s: %r are gone" % (what, plan.describe(), gone), plan)
            for k in gone:
                os.mkdir(os.path.join(top, k))
                os.chmod(os.path.join(top, k), int(before[k][1], 8) & 0o7777)
            run.stats.probe("parent_stays")

    def race(self, run, sc, rng, path):
        """Somebody fills a file while others touch it: nothing is lost."""
        if not sc["race"]:
            return
        fn = run.path("shared.txt")

        def writer():
            with open(fn, "a") as f:
                f.write("what was measured\n")
                f.flush()
                f.write("and more\n")

        def toucher():
            path(fn).touch()
        for plan in run.plans("race", [Plan(sched=random_schedule(rng, 1 + sc["touchers"], 5 + 5 * sc["touchers"])) for _ in range(4)]):
            run.clean()
            old = ""
            if sc["race"] == "there":
                old = "before\n"
                with open(fn, "w") as f:
                    f.write(old)
            outs, trace = run.parallel([writer] + [toucher] * sc["touchers"], plan)
            for o in outs:
                if o.exc is not None:
                    raise Violation("race-raises", exc_text(o.exc), plan)
            with open(fn) as f:
                got = f.read()
            if got != old + "what was measured\nand more\n":
                raise Violation("lost-data", "a file that was touched while it was written holds %r" % got, plan)
            run.stats.probe("touch_race")
