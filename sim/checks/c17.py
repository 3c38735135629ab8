"""Configuration files: what is written is what is loaded, or the caller hears of it."""
import contextlib
import datetime
import errno
import io
import os
import warnings

import simenv
from base import BaseCheck
from savecheck import exc_text, sample
from simenv import Plan, Violation, hard_faults, benign_plan, total_written

KEYS = [u"VNA", u"gpib", u"start", u"stop", u"name", u"a key with blanks", u"f\xf6rst\xe4rkare", u"12:30", u"1.5", u"yes", u"x", u"n/a", u"ifbw", u"limits", u"12V", 7, 22, -1]
TEXTS = [u"plain", u"", u" leading", u"trailing ", u"12:30", u"12GHz", u"3 %", u"5 hours", u"2014-05-01", u"2014-05-01 12:30", u"true", u"null", u"~", u"1e3",
         u"0x10", u"a: b", u"# no comment", u"- item", u"tab\tbed", u"two\nlines", u"\xe5\xe4\xf6 \u03a9", u"'quoted'", u'"double"', u"{x}", u"[y]", u"%d", u"@", u"`", u"!tag",
         u"&a", u"*a", u"x" * 200, u"7", u"-3.5", u"1_000", u"=", u"<<", u"long " * 40, u"ends with colon:", u"\U0001f600", u"\x07bell", u"cr\rlf\n", u"\u2028x", u"a\n\n b\n", u"\ufeff", u"\x85",
         u"\xa0x", u"-1 days", u"1:30", u"190:20:30", u"017", u"0o17", u"5 m", u".5", u"."]
UNITS = ["Hz", "V", "A", "s", "W", "Ohm", "m"]


def build(v):
    """A configuration value from its JSON form."""
    from hftools.file_formats.config import SIValue
    from hftools import path
    k = v[0]
    if k == "si":
        return SIValue(v[1])
    if k == "td":
        return datetime.timedelta(*v[1])
    if k == "dt":
        return datetime.datetime(*v[1], tzinfo=datetime.timezone(datetime.timedelta(minutes=v[2])) if len(v) > 2 else None)
    if k == "date":
        return datetime.date(*v[1])
    if k == "list":
        return [build(x) for x in v[1]]
    if k == "dict":
        return dict((a, build(b)) for a, b in v[1])
    if k == "path":
        return path(v[1])
    return v[1]


def canon(x):
    """What a user sees of a value."""
    if isinstance(x, dict):
        return ("dict", sorted((repr(k), canon(v)) for k, v in x.items()))
    if isinstance(x, list):
        return ("list", [canon(v) for v in x])
    if isinstance(x, bool) or x is None:
        return ("const", x)
    if isinstance(x, float):
        unit = getattr(x, "unit", None)
        # metres are written in millimetres: equal to 13 digits
        return ("number", "%.12e" % x if unit == "m" else repr(float(x)), unit)
    if isinstance(x, int):
        return ("int", x)
    if isinstance(x, str):
        return ("text", str(x))
    return (type(x).__name__, repr(x))


PREFIX = {"": 0, "d": -1, "c": -2, "m": -3, "u": -6, "n": -9, "p": -12, "f": -15, "a": -18, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18}


def by_hand(r, depth=0):
    """[text in the file, what it means] as a user would write it."""
    k = r.random()
    if k < 0.3:
        num = r.choice(["1", "2.5", "-3.25", "+7", "100", "1e3", "0.1", ".5", "12.75e-1", "16", "-40"])
        pre, unit = r.choice(sorted(PREFIX)), r.choice(UNITS)
        if unit == "m":
            pre = pre or "k"    # a lone m is the prefix milli
        return [num + r.choice(["", " ", "  "]) + pre + unit, ["unit", float(num) * 10.0 ** PREFIX[pre], unit]]
    if k < 0.4:
        num = r.choice(["10", "0.5", "-3", "100", "2.25", "1e2"])
        kind = r.choice(["%", "ppm", "ppb"])
        return [num + r.choice(["", " "]) + kind, ["unit", float(num) * {"%": 1e-2, "ppm": 1e-6, "ppb": 1e-9}[kind], None]]
    if k < 0.52:
        parts, us = [], 0
        for word, size in (("day", 86400), ("hour", 3600), ("minute", 60), ("second", 1)):
            if r.random() < 0.5:
                num = r.choice(["1", "2", "20", "0", "1.5", "0.25", "90"])
                parts.append(num + r.choice([" ", "", "  "]) + word + r.choice(["", "s"]))
                us += int(float(num) * size * 1000000)
        if parts:
            return [r.choice([" ", "  "]).join(parts), ["interval", us]]
    if k < 0.6:
        t = [r.randint(1990, 2037), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59)]
        if r.random() < 0.5:
            return ["%04d-%02d-%02d %02d:%02d" % tuple(t), ["when"] + t + [0]]
        t.append(r.randint(0, 59))
        return ["%04d-%02d-%02d %02d:%02d:%02d" % tuple(t), ["when"] + t]
    if k < 0.65:
        t = [r.randint(1990, 2037), r.randint(1, 12), r.randint(1, 28)]
        return ["%04d-%02d-%02d" % tuple(t), ["day"] + t]
    if k < 0.72:
        n = r.choice([0, 7, 16, -3, 123456789])
        return [str(n), ["int", n]]
    if k < 0.8:
        t = r.choice(["plain text", "VNA 8510", "GPIB0::16::INSTR", "12 GHz filter", "5 hours later", "K9", "10 % of it", "Hz", "days"])
        return [t, ["text", t]]
    if k < 0.85 or depth > 2:
        if r.random() < 0.5:
            t = r.choice(["12GHz", "10%", "5 hours", "2014-05-01", "7", ""])
            return ["'%s'" % t, ["text", t]]
        return [r.choice(["true", "yes", "on"]), ["const", True]]
    if k < 0.92:
        return [None, ["list", [by_hand(r, depth + 1) for _ in range(r.randint(1, 3))]]]
    return [None, ["dict", [[a, by_hand(r, depth + 1)] for a in r.sample(HANDKEYS, r.randint(1, 4))]]]


HANDKEYS = ["VNA", "gpib", "ifbw", "start", "stop", "limits", "name", "testset", "a key with blanks", u"f\xf6rst\xe4rkare"]


def hand_text(v, ind):
    """The lines of a value, in block style."""
    if v[0] is not None:
        return " " + v[0] + "\n"
    out = "\n"
    for x in v[1][1]:
        if v[1][0] == "list":
            out += " " * ind + "-" + hand_text(x, ind + 2)
        else:
            out += " " * ind + x[0] + ":" + hand_text(x[1], ind + 2)
    return out


def hand_check(v, got, where):
    """Complains when a loaded value is not what the text means."""
    m = v[1]
    if m[0] == "dict":
        if not isinstance(got, dict) or sorted(got.keys()) != sorted(k for k, _ in m[1]):
            return "%s is %.100r" % (where, got)
        return next((x for x in (hand_check(b, got[a], where + "/" + a) for a, b in m[1]) if x), None)
    if m[0] == "list":
        if not isinstance(got, list) or len(got) != len(m[1]):
            return "%s is %.100r" % (where, got)
        return next((x for x in (hand_check(b, got[i], "%s[%d]" % (where, i)) for i, b in enumerate(m[1])) if x), None)
    if m[0] == "unit":
        ok = isinstance(got, float) and abs(got - m[1]) <= 1e-12 * abs(m[1]) and getattr(got, "unit", None) == m[2]
    elif m[0] == "interval":
        ok = isinstance(got, datetime.timedelta) and abs(got - datetime.timedelta(microseconds=m[1])) <= datetime.timedelta(microseconds=1)
    elif m[0] == "when":
        ok = isinstance(got, datetime.datetime) and got == datetime.datetime(*m[1:])
    elif m[0] == "day":
        ok = type(got) is datetime.date and got == datetime.date(*m[1:])
    else:
        ok = type(got) is type(m[1]) and got == m[1]
    return None if ok else "%s written %r is %.100r%s" % (where, v[0], got, getattr(got, "unit", None) or "")


def scoping(cfg):
    """Settings inside settings: what is not there is found in the nearest enclosing settings."""
    keys = [u"no such key"]

    def collect(o):
        if isinstance(o, dict):
            keys.extend(k for k in o.keys() if k not in keys)
            for v in o.values():
                collect(v)
        elif isinstance(o, list):
            for v in o:
                collect(v)
    collect(cfg)

    def walk(o, chain, where):
        if isinstance(o, dict):
            chain = [dict(o.items())] + chain
            for k in keys:
                have = next((d for d in chain if k in d), None)
                if have is None:
                    try:
                        return "%s gives %.60r for %r, which is nowhere" % (where, o[k], k)
                    except KeyError:
                        pass
                    if o.get(k, "dflt") != "dflt" or o.get(k) is not None or k in o:
                        return "%s seems to have %r, which is nowhere" % (where, k)
                    continue
                want = canon(have[k])
                try:
                    if canon(o[k]) != want:
                        return "%s gives %.60r for %r, the nearest enclosing settings %.60r" % (where, o[k], k, have[k])
                except KeyError:
                    return "%s does not find %r of the enclosing settings" % (where, k)
                if canon(o.get(k, "dflt")) != want or k not in o:
                    return "%s: get or 'in' do not find %r of the enclosing settings" % (where, k)
            for k, v in o.items():
                bad = walk(v, chain, "%s/%s" % (where, k))
                if bad:
                    return bad
        elif isinstance(o, list):
            for i, v in enumerate(o):
                bad = walk(v, chain, "%s[%d]" % (where, i))
                if bad:
                    return bad
        return None
    return walk(cfg, [], "the configuration")


class Check(BaseCheck):
    id = "C17"
    level = "fault_enumeration"
    runs = {"quick": 800, "thorough": 15000}
    per_kind = {"quick": 8, "thorough": 40}
    probes = ("written", "with_unit", "metres", "interval", "date", "nested", "short_write", "short_read", "write_failed_as_it_must", "disk_full",
              "retry_after_failure", "reload_failed", "reload_after_failure", "missing_file", "write_elsewhere", "overwrites_longer", "second_generation", "by_hand", "enclosing")

    def value(self, r, depth=0):
        k = r.random()
        if k < 0.3:
            unit = r.choice(UNITS)
            num = r.choice(["12", "-3.5", "0.1", "+7", "1e3", "2.5e-7", ".5", "1234567.891", "1E+05", "-0"])
            if r.random() < 0.4:
                num = repr(r.choice([1, -1, 1e-3, 1e9]) * r.random())
            if r.random() < 0.1:
                return ["si", num + r.choice(["", "k", " M", "u"])]
            return ["si", num + r.choice(["", " ", "\t"]) + r.choice(["", "m", "u", "n", "p", "f", "k", "M", "G", "T", "d", "c", "a", "P", "E"]) + unit]
        if k < 0.4:
            return ["td", [r.choice([0, 0, 1, 12, 365, -1, -30, 200000, 999999999]), r.choice([0, 1, 59, 60, 3600, 86399, r.randint(0, 86399)]), r.choice([0, 0, 500000, 1, 999999])]]
        if k < 0.47:
            return ["dt", [r.randint(1970, 2037), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.choice([0, 0, 59, 7]), r.choice([0, 0, 500000])]] + ([r.choice([0, 60, 120, -330, 345])] if r.random() < 0.25 else [])
        if k < 0.5:
            return ["date", [r.randint(1970, 2037), r.randint(1, 12), r.randint(1, 28)]]
        if k < 0.58:
            return ["int", r.choice([0, 1, -7, 16, 10 ** 12, 8, 630, 45045])]
        if k < 0.66:
            return ["float", r.choice([0.0, 1.5, -2.25e-9, 1e22, 1e-5, 3.0, 0.1, -1e300, 12345.678, float("inf"), float("nan"), float("-inf"), 5e-324, r.random()])]
        if k < 0.7:
            return ["const", r.choice([True, False, None])]
        if k < 0.85 or depth > 2:
            return ["text", r.choice(TEXTS)]
        if k < 0.87:
            return ["path", r.choice(["/data/run 1", "c.txt", "../x"])]
        if k < 0.93:
            return ["list", [self.value(r, depth + 1) for _ in range(r.randint(0, 4))]]
        return ["dict", [[a, self.value(r, depth + 1)] for a in r.sample(KEYS, r.randint(0, 4))]]

    def scenario(self, r, tier):
        cfgs = []
        for _ in range(2):
            n = r.choice([0, 1, 2, 4, 8, 15])
            cfgs.append([[a, self.value(r)] for a in r.sample(KEYS, n)])
        if r.random() < 0.1:
            cfgs[1] += [["big%d" % i, ["text", "y" * 100]] for i in range(100)]
        hand = []
        if r.random() < 0.5:
            hand = [[a, by_hand(r)] for a in r.sample(HANDKEYS, r.randint(1, 6))]
        return dict(cfgs=cfgs, hand=hand, lexical=r.random() < 0.5, elsewhere=r.random() < 0.3, old=r.choice([True, False]), stale=r.choice([None, "old", "gone"]), k=self.per_kind[tier])

    def shrink(self, sc):
        for w in (1, 0):
            c = sc["cfgs"][w]
            for i in range(len(c)):
                cc = list(sc["cfgs"])
                cc[w] = c[:i] + c[i + 1:]
                yield dict(sc, cfgs=cc)
        for w in (1, 0):
            for i, (k, v) in enumerate(sc["cfgs"][w]):
                if v[0] in ("list", "dict") and v[1]:
                    cc = list(sc["cfgs"])
                    cc[w] = cc[w][:i] + [[k, [v[0], v[1][1:]]]] + cc[w][i + 1:]
                    yield dict(sc, cfgs=cc)
        if sc["elsewhere"]:
            yield dict(sc, elsewhere=False)
        for i in range(len(sc.get("hand", []))):
            yield dict(sc, hand=sc["hand"][:i] + sc["hand"][i + 1:])
            m = sc["hand"][i][1][1]
            if m[0] in ("list", "dict") and len(m[1]) > 1:
                for part in (m[1][1:], m[1][:-1]):
                    yield dict(sc, hand=sc["hand"][:i] + [[sc["hand"][i][0], [None, [m[0], part]]]] + sc["hand"][i + 1:])
        if sc["stale"]:
            yield dict(sc, stale=None)
        if sc["old"]:
            yield dict(sc, old=False)

    def run(self, run, sc):
        from hftools.file_formats.config import Config, LexicalConfig
        cls = LexicalConfig if sc["lexical"] else Config
        rng = run.derived("c17")
        fname = run.path("settings.yaml")
        target = run.path("other.yaml") if sc["elsewhere"] else fname
        said = []

        def load(fn):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                text = io.StringIO()
                with contextlib.redirect_stdout(text):
                    c = cls(fn)
                said[:] = [str(x.message) for x in w] + text.getvalue().split("\n")[:-1]
            return c

        def fill(cfg, spec):
            cfg.clear()
            for k, v in spec:
                cfg[k] = build(v)

        # a configuration that starts from nothing
        run.clean()
        out = run.execute(lambda: load(fname))
        if out.exc is not None:
            raise Violation("raises", "a missing file: %s" % exc_text(out.exc))
        cfg = out.value
        if len(list(cfg.keys())) or not said:
            raise Violation("missing-file", "a missing file gives %d settings and %d warnings" % (len(list(cfg.keys())), len(said)))
        run.stats.probe("missing_file")
        if sc["old"]:
            fill(cfg, sc["cfgs"][1])
            run.must(lambda: cfg.write(target))
        start = run.snapshot()
        fill(cfg, sc["cfgs"][0])
        want = canon(cfg)
        for k, v in sc["cfgs"][0]:
            run.stats.probe({"td": "interval", "dt": "date", "dict": "nested"}.get(v[0], "other"))
            if v[0] == "si":
                run.stats.probe("metres" if v[1].endswith("m") else "with_unit")

        def save():
            if sc["elsewhere"]:
                cfg.write(target)
            else:
                cfg.write()

        def intact(plan):
            if canon(cfg) != want:
                raise Violation("settings-changed", "writing changed the settings in memory", plan)

        def verify(plan, readplan=None, what="written"):
            out = run.execute(lambda: load(target), readplan)
            if out.hung or out.exc is not None:
                raise Violation("read-back", "what was %s cannot be loaded: %s" % (what, exc_text(out.exc)), plan)
            got = canon(out.value)
            if got != want:
                raise Violation("read-back", "%s settings load differently: %s" % (what, self.diff(want, got)), plan)
            if said:
                raise Violation("spurious-warning", "loading a complete file warns: %s" % said[0], plan)
            if sc["lexical"]:
                bad = scoping(out.value)
                if bad:
                    raise Violation("wrong-scope", bad, plan)
                run.stats.probe("enclosing")
            if out.leaked:
                raise Violation("handle-left-open", "loading left %s open" % out.leaked_paths, plan)
            run.stats.note(got)
            return out

        if sc.get("hand"):
            # a file that somebody wrote
            hname = run.path("hand.yaml")
            text = hand_text([None, ["dict", sc["hand"]]], 0).lstrip("\n")
            with open(hname, "wb") as f:
                f.write(text.encode("utf-8"))
            first = run.execute(lambda: load(hname))
            for plan in run.plans("hand", [Plan(), benign_plan(first.log, rng)]):
                for again in (False, True):
                    out = run.execute(lambda: load(run.path("copy.yaml") if again else hname), plan)
                    if out.exc is not None:
                        raise Violation("read-back", "%s cannot be loaded: %s" % ("a file by hand, loaded and written," if again else "a file by hand", exc_text(out.exc)), plan)
                    bad = hand_check([None, ["dict", sc["hand"]]], out.value, "") or (sc["lexical"] and scoping(out.value))
                    if bad or said:
                        raise Violation("wrong-value", "%s%s" % ("loaded, written and loaded: " if again else "", bad or said[0]), plan)
                    if not again:
                        run.must(lambda: out.value.write(run.path("copy.yaml")))
            run.stats.probe("by_hand")
            os.unlink(hname)
            if os.path.exists(run.path("copy.yaml")):
                os.unlink(run.path("copy.yaml"))

        clean = run.execute(save)
        if clean.exc is not None:
            raise Violation("write-raises", exc_text(clean.exc))
        if clean.leaked:
            raise Violation("handle-left-open", "write left %s open" % clean.leaked_paths)
        intact(None)
        good = run.snapshot()
        if sc["elsewhere"] and (cfg.filename != fname or os.path.exists(fname)):
            raise Violation("wrong-file", "writing to another file changed or created the configuration's own")
        run.stats.probe("write_elsewhere" if sc["elsewhere"] else "written")
        if sc["old"] and len(start.get(os.path.basename(target), b"")) > len(good[os.path.basename(target)]):
            run.stats.probe("overwrites_longer")
        rd = verify(None)
        # what was loaded can be written and loaded again
        def again():
            load(target).write(run.path("copy.yaml"))
        out = run.execute(again)
        if out.exc is not None:
            raise Violation("write-raises", "settings that were loaded from a file: %s" % exc_text(out.exc))
        out = run.execute(lambda: load(run.path("copy.yaml")))
        if out.exc is not None or canon(out.value) != want or said:
            raise Violation("read-back", "settings loaded, written and loaded again differ: %s" % (exc_text(out.exc) if out.exc is not None else self.diff(want, canon(out.value))))
        run.stats.probe("second_generation")
        os.unlink(run.path("copy.yaml"))
        if not run.stats.samples:
            run.stats.samples.append({"settings": sc["cfgs"][0], "lexical": sc["lexical"], "operations": simenv.fmt_log(clean.log)[:6]})
        # unusual but legal
        for plan in run.plans("benign-save", [benign_plan(clean.log, rng)]):
            run.restore(start)
            out = run.execute(save, plan)
            if out.exc is not None:
                raise Violation("write-raises", "%s: %s" % (plan.describe(), exc_text(out.exc)), plan)
            run.stats.probe("short_write", 1 if out.fired else 0)
            verify(plan)
        for plan in run.plans("benign-read", [benign_plan(rd.log, rng)]):
            run.restore(good)
            verify(plan, plan)
            run.stats.probe("short_read")
        # the disk fails while writing
        cand = sample(rng, hard_faults([r for r in clean.log if r[1] != simenv.READ], rng), sc["k"])
        n = total_written(clean.log)
        if n:
            cand += [Plan(budget=b) for b in sorted(set([0, n - 1, rng.randrange(n)]))]
        for plan in run.plans("fault-save", cand):
            run.restore(start)
            out = run.execute(save, plan)
            if not out.fired:
                continue
            if out.exc is None:
                raise Violation("lost-write", "write returned normally although the disk failed (%s)" % plan.describe(), plan)
            if out.leaked:
                raise Violation("handle-left-open", "%s: %s left open" % (plan.describe(), out.leaked_paths), plan)
            intact(plan)
            run.stats.probe("disk_full" if plan.budget is not None else "write_failed_as_it_must")
            out = run.execute(save)
            if out.exc is not None:
                raise Violation("retry-raises", "%s: %s" % (plan.describe(), exc_text(out.exc)), plan)
            run.stats.probe("retry_after_failure")
            verify(plan, what="written again after a failure")
        # the disk fails while loading: the whole file or nothing, never part of it
        cand = sample(rng, hard_faults([r for r in rd.log if r[1] in (simenv.OPEN, simenv.READ)], rng, only_write=False), sc["k"])
        for count, plan in enumerate(run.plans("fault-load", cand)):
            run.restore(good)

            def reload():
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    text = io.StringIO()
                    with contextlib.redirect_stdout(text):
                        c.reload_settings()
                    said[:] = [str(x.message) for x in w] + text.getvalue().split("\n")[:-1]

            def stale():
                # the settings in memory are older ones
                c.clear()
                for k, v in sc["cfgs"][1]:
                    c[k] = build(v)
                c[u"only in memory"] = u"old"
            c = run.execute(lambda: load(target)).value
            if sc["stale"] == "old" and not count:
                # a file that was changed by somebody else
                stale()
                out = run.execute(reload)
                if out.exc is not None or canon(c) != want or said:
                    raise Violation("reload", "settings reloaded from a changed file: %s" % (self.diff(want, canon(c)) if out.exc is None else exc_text(out.exc)))
            if sc["stale"]:
                stale()
            if sc["stale"] == "gone":
                # a file that is no longer there
                os.rename(target, target + ".away")
                out = run.execute(reload)
                if out.exc is not None or len(list(c.keys())) or not said:
                    raise Violation("missing-file", "reloading from a missing file gives %d settings and %d warnings (%s)" % (len(list(c.keys())), len(said), exc_text(out.exc)), plan)
                os.rename(target + ".away", target)
            out = run.execute(reload, plan)
            if not out.fired:
                continue
            run.stats.probe("reload_failed")
            if out.leaked:
                raise Violation("handle-left-open", "%s: %s left open" % (plan.describe(), out.leaked_paths), plan)
            if canon(c) != want:
                if len(list(c.keys())):
                    raise Violation("partial-load", "%s: settings are partly loaded or old ones" % plan.describe(), plan)
                if out.exc is None and not said:
                    raise Violation("silent-load-failure", "%s: no settings, no error and no warning" % plan.describe(), plan)
            out = run.execute(reload)
            if out.exc is not None or canon(c) != want or said:
                raise Violation("reload-after-failure", "%s, then a working disk: %s" % (plan.describe(), exc_text(out.exc)), plan)
            run.stats.probe("reload_after_failure")

    def diff(self, a, b):
        if a[0] == b[0] == "dict":
            da, db = dict(a[1]), dict(b[1])
            for k in sorted(set(da) | set(db)):
                if da.get(k) != db.get(k):
                    if k in da and k in db:
                        return "%s: %s" % (k, self.diff(da[k], db[k]))
                    return "%s is %s" % (k, "missing" if k in da else "new")
        return "%.200r, written %.200r" % (b, a)
