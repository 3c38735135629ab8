"""Making directories while others make them too."""
import errno
import os

import simenv
from base import BaseCheck
from savecheck import exc_text
from simenv import Plan, Violation, random_schedule

NAMES = ["a", "b", "data", "2014", "x y", u"m\xe4t", "deep", " lead", "trail ", ".hidden", "v1.2", "-x", "A", "~", "a;b", "$HOME", "%d", "x" * 200]


class Check(BaseCheck):
    id = "C15"
    level = "fault_enumeration"
    runs = {"quick": 2000, "thorough": 40000}
    per = {"quick": 6, "thorough": 20}
    probes = ("alone", "already_there", "file_in_the_way", "concurrent", "concurrent_overlap", "mkdir_failed", "mkdir_failed_but_there",
              "killed", "file_appears", "existing_content_kept")

    def scenario(self, r, tier):
        n = r.choice([1, 2, 2, 3])
        names = r.sample(NAMES, 3)
        base = [r.choice(names) for _ in range(r.randint(1, 4))]
        targets = []
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                t = list(base)
            elif k < 0.75:
                t = base[:r.randint(1, len(base))]
            else:
                t = base[:r.randint(0, len(base))] + [r.choice(names) for _ in range(r.randint(1, 2))]
            targets.append(t)
        link = r.choice([None, None, None, "dir", "dangling"])
        there = r.choice([0, 0, 1, 2, len(base)])
        if link == "dir" and there and r.random() < 0.5:
            # up from where the link leads
            targets[r.randrange(1, n) if n > 1 else 0] = [targets[0][0], "..", "up"][:r.choice([2, 3, 3])] if n > 1 else targets[0]
            if n == 1:
                targets.append([targets[0][0], "..", "up"])
                n = 2
        return dict(targets=targets, how=[r.choice(["make_dirs", "segments", "path", "path"]) for _ in range(n)],
                    there=there, content=r.random() < 0.5,
                    block=r.choice([None, None, None, "before", "during"]), blockat=r.randint(1, len(base)), relative=r.random() < 0.3, slash=r.choice(["", "", "", "/", "//"]), link=link,
                    mode=r.choice([0o755, 0o700, 0o750, 0o2775, 0o1777]), umask=r.choice([0o22, 0o22, 0o27, 0o77, 0]), k=self.per[tier])

    def shrink(self, sc):
        for i in range(len(sc["targets"])):
            if len(sc["targets"]) > 1:
                yield dict(sc, targets=sc["targets"][:i] + sc["targets"][i + 1:], how=sc["how"][:i] + sc["how"][i + 1:])
        for key, v in (("block", None), ("content", False), ("there", 0), ("relative", False), ("slash", ""), ("link", None), ("mode", 0o755), ("umask", 0o22)):
            if sc[key] != v and not (key in ("link", "there") and any(".." in t for t in sc["targets"])):
                yield dict(sc, **{key: v})

    def run(self, run, sc):
        from hftools.utils import make_dirs
        from hftools import path
        rng = run.derived("c15")
        base = sc["targets"][0]
        n = len(sc["targets"])

        def setup():
            run.clean()
            d = run.root
            for i, s in enumerate(base[:sc["there"]]):
                d = os.path.join(d, s)
                if sc["link"] == "dir" and i == 0:
                    os.makedirs(run.path("far", "off"))
                    os.symlink(run.path("far", "off"), d)
                else:
                    os.mkdir(d)
                os.chmod(d, sc["mode"])
            if sc["content"]:
                with open(os.path.join(d, "keep.txt"), "w") as f:
                    f.write("precious")
            if sc["block"] == "before":
                p = run.path(*base[:sc["blockat"]])
                if not os.path.exists(p) and os.path.isdir(os.path.dirname(p)):
                    with open(p, "w") as f:
                        f.write("in the way")
            if sc["link"] == "dangling" and not os.path.lexists(run.path(base[0])):
                os.symlink(run.path("no such place"), run.path(base[0]))
            return tree()

        def tree():
            out = {}
            for d, dirs, files in os.walk(run.root):
                for x in dirs:
                    st = os.lstat(os.path.join(d, x))
                    out[os.path.relpath(os.path.join(d, x), run.root)] = oct(st.st_mode)
                for x in files:
                    p = os.path.join(d, x)
                    if os.path.islink(p):
                        out[os.path.relpath(p, run.root)] = os.readlink(p)
                        continue
                    with open(p) as f:
                        out[os.path.relpath(p, run.root)] = f.read()
            return out

        def maker(k):
            t = sc["targets"][k]
            top = "" if sc["relative"] else run.root
            how = sc["how"][k]

            def fn():
                if how == "make_dirs":
                    make_dirs(os.path.join(top, *t) + sc["slash"])
                elif how == "segments":
                    make_dirs(*([top] if top else []) + t)
                else:
                    path(os.path.join(top, *t) + sc["slash"]).makedirs(silent=True)
                return os.path.isdir(run.path(*t))
            return fn

        def allowed(before, after, plan):
            """Only directories on the way to a target are new; nothing is gone or changed."""
            for name, v in before.items():
                if name not in after or after[name] != v:
                    raise Violation("content-changed", "%r was %s" % (name, "removed" if name not in after else "changed"), plan)
            ok = set()
            for t in sc["targets"]:
                for i in range(len(t)):
                    ok.add(os.path.join(*t[:i + 1]))
            if sc["link"] == "dir" and sc["there"]:
                ok.add(os.path.join("far", "up"))
                ok |= set(os.path.join("far", "off") + x[len(base[0]):] for x in ok if x == base[0] or x.startswith(base[0] + os.sep))
            for name, v in after.items():
                if name in before or v == "sudden":
                    continue
                if name in ok and v.startswith("0o4"):
                    # (a directory in a set-group-id one inherits that bit)
                    if int(v, 8) & 0o777 != 0o777 & ~sc["umask"]:
                        raise Violation("permissions", "the new directory %r has mode %s, umask %03o" % (name, v, sc["umask"]), plan)
                    continue
                raise Violation("stray", "%r appeared, although nobody asked for it" % name, plan)

        def blocked(t):
            """A file lies on the way."""
            p = run.root
            for s in t:
                p = os.path.join(p, s)
                if os.path.lexists(p) and not os.path.isdir(p):
                    return True
            return False

        os.umask(sc["umask"])
        # 1. one after the other
        before = setup()
        clean = []
        for k in range(n):
            b = blocked(sc["targets"][k])
            there = os.path.isdir(run.path(*sc["targets"][k]))
            out = run.execute(maker(k))
            clean.append(out)
            if b:
                run.stats.probe("file_in_the_way")
                if out.exc is None:
                    raise Violation("file-in-the-way", "a file is in the way of %r, yet making the directory (%s) succeeds" % ("/".join(sc["targets"][k]), sc["how"][k]))
            elif out.exc is not None:
                raise Violation("raises", "making %r (%s): %s" % ("/".join(sc["targets"][k]), sc["how"][k], exc_text(out.exc)))
            elif not out.value:
                raise Violation("not-there", "%s returned, but the directory %r does not exist" % (sc["how"][k], "/".join(sc["targets"][k])))
            run.stats.probe("already_there" if there else "alone")
        allowed(before, tree(), None)
        if "keep.txt" in " ".join(before):
            run.stats.probe("existing_content_kept")
        if not run.stats.samples:
            run.stats.samples.append({"targets": sc["targets"], "how": sc["how"], "operations": simenv.fmt_log(clean[0].log)[:6]})

        # 2. every mkdir failing
        cand = []
        for r in clean[0].log:
            if r[1] == simenv.MKDIR:
                cand.append(Plan([[r[0], simenv.A_ERRNO, rng.choice([errno.EACCES, errno.ENOSPC, errno.EIO, errno.EROFS, errno.EEXIST, errno.EMLINK])]]))
        for plan in run.plans("mkdir", cand):
            before = setup()
            out = run.execute(maker(0), plan)
            if not out.fired:
                continue
            real = os.path.isdir(run.path(*sc["targets"][0]))
            run.stats.probe("mkdir_failed_but_there" if real else "mkdir_failed")
            if out.exc is None and not real:
                raise Violation("silent-failure", "%s: %s returned, but the directory does not exist" % (plan.describe(), sc["how"][0]), plan)
            if out.exc is not None and real:
                raise Violation("raises", "%s: the directory exists, yet %s: %s" % (plan.describe(), sc["how"][0], exc_text(out.exc)), plan)
            if out.exc is not None and not isinstance(out.exc, EnvironmentError):
                raise Violation("wrong-error", "%s: %s" % (plan.describe(), exc_text(out.exc)), plan)
            allowed(before, tree(), plan)
            out = run.execute(maker(0))
            if out.exc is not None and not blocked(sc["targets"][0]):
                raise Violation("retry-raises", "%s, then a working disk: %s" % (plan.describe(), exc_text(out.exc)), plan)

        # 3. all at once
        if n == 1 and sc["block"] != "during":
            return
        fns = [maker(k) for k in range(n)]
        if sc["block"] == "during":
            def blocker():
                p = run.path(*base[:sc["blockat"]])
                try:
                    fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_EXCL)
                    os.write(fd, b"sudden")
                    os.close(fd)
                except EnvironmentError:
                    return False
                return True
            fns.append(blocker)
        total = sum(len(o.log) for o in clean) + 6
        cand = []
        for _ in range(sc["k"]):
            p = Plan(sched=random_schedule(rng, len(fns), total))
            if rng.random() < 0.3:
                p.kill = [rng.randrange(n), rng.randint(0, 6)]
            cand.append(p)
        for plan in run.plans("parallel", cand):
            before = setup()
            outs, trace = run.parallel(fns, plan)
            after = tree()
            for k in range(n):
                o, t = outs[k], sc["targets"][k]
                if o.hung:
                    raise Violation("hang", "making %r does not end" % "/".join(t), plan)
                if o.crashed:
                    run.stats.probe("killed")
                    continue
                isdir = os.path.isdir(run.path(*t))
                if o.exc is None and not (isdir and o.value):
                    raise Violation("not-there", "process %d: %s returned, but %r is not a directory" % (k, sc["how"][k], "/".join(t)), plan)
                if o.exc is not None and not blocked(t):
                    raise Violation("raises", "process %d: making %r next to others fails: %s" % (k, "/".join(t), exc_text(o.exc)), plan)
            if len(fns) > n and outs[n].value:
                run.stats.probe("file_appears")
            allowed(before, after, plan)
            run.stats.probe("concurrent")
            if len(set(len(t) for t in sc["targets"])) < n:
                run.stats.probe("concurrent_overlap")
