"""What depends on the time of day follows the clock, whatever the clock does."""
import datetime
import io
import os
import time

import simenv
from base import BaseCheck
from savecheck import exc_text
from simenv import Plan, Violation

S = 10 ** 9
DAY = 86400
# midnights and other edges, in seconds
EDGES = [0, 86400, 951782400, 1330473600, 1399939200, 1388534400, 1404172800, 1414281600, 2147483648, 4102444800, 1456704000]


ZONES = ["UTC0", "UTC0", "IST-5:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+14>-14", "<-12>12"]


def utc(ns):
    """The moment as the clock on the wall shows it."""
    return datetime.datetime.fromtimestamp(ns // S) + datetime.timedelta(microseconds=ns % S // 1000)


def next_time(now, h, m, s):
    d = now.replace(hour=h, minute=m, second=s, microsecond=0)
    return d if d >= now else d + datetime.timedelta(days=1)


class Check(BaseCheck):
    id = "C16"
    level = "exploration"
    runs = {"quick": 800, "thorough": 40000}
    per = {"quick": 6, "thorough": 30}
    probes = ("config_today", "config_tomorrow", "midnight_during_load", "clock_jumps_back", "exactly_now", "timestamp", "timestamp_highres",
              "mdif_stamp", "month_end", "other_zone")
    stubs = BaseCheck.stubs + ["system clock (every read costs a scheduled step, jumps included)"]
    assumptions = ["times are naive local times: the hour that a change of summer time repeats or skips is not told apart"]

    def scenario(self, r, tier):
        times = []
        for _ in range(r.randint(1, 5)):
            k = r.random()
            if k < 0.3:
                t = (r.choice([0, 23]), r.choice([0, 59]), r.choice([0, 1, 59]))
            else:
                t = (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
            times.append(list(t) + [r.random() < 0.5])
        return dict(times=times, lexical=r.random() < 0.5, nested=r.random() < 0.5, what=r.choice(["config", "config", "config", "stamp", "mdif"]),
                    highres=r.random() < 0.5, zone=r.choice(ZONES), k=self.per[tier])

    def shrink(self, sc):
        for i in range(len(sc["times"])):
            if len(sc["times"]) > 1:
                yield dict(sc, times=sc["times"][:i] + sc["times"][i + 1:])
        if sc["nested"]:
            yield dict(sc, nested=False)
        if sc["zone"] != "UTC0":
            yield dict(sc, zone="UTC0")

    def clock(self, r, sc):
        """Start and steps of a clock."""
        k = r.random()
        if k < 0.5:
            start = r.choice(EDGES) + r.choice([-1, 0, 0, 1, DAY - 1, r.randint(-DAY, DAY)])
        elif k < 0.8:
            h, m, s, short = r.choice(sc["times"])
            start = r.choice(EDGES) + h * 3600 + m * 60 + (0 if short else s) + r.choice([-1, 0, 0, 1])
        else:
            start = r.randint(10 ** 8, 4 * 10 ** 9)
        ns = max(start, DAY) * S + r.choice([0, 0, 1000, 500000000, 999999000, r.randrange(0, S, 1000)])
        k = r.random()
        if k < 0.4:
            steps = [0]
        elif k < 0.7:
            steps = [r.choice([0, 1000, S, 1000003]) for _ in range(r.randint(1, 6))]
        else:
            steps = [r.choice([0, 1000, S, 3600 * S, DAY * S, -S, -3600 * S, -DAY * S, 1500000000, 3 * DAY * S, -3 * DAY * S, 366 * DAY * S, -366 * DAY * S, 10000 * DAY * S]) for _ in range(r.randint(1, 12))]
        # times before 1970 are rounded otherwise, and nobody has such a clock
        now = ns
        for i, x in enumerate(steps):
            if now + x < 0:
                steps[i] = x = 0
            now += x
        if steps[-1] < 0 or steps[-1] >= DAY * S:
            steps.append(r.choice([0, 1000]))
        return Plan(clock=ns, steps=steps)

    def run(self, run, sc):
        old = os.environ.get("TZ")
        os.environ["TZ"] = sc["zone"]
        time.tzset()
        try:
            self.at_zone(run, sc)
        finally:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
        if sc["zone"] != "UTC0":
            run.stats.probe("other_zone")

    def at_zone(self, run, sc):
        rng = run.derived("c16")
        run.clean()
        text = u""
        for i, (h, m, s, short) in enumerate(sc["times"]):
            v = u"%02d:%02d" % (h, m) if short else u"%02d:%02d:%02d" % (h, m, s)
            text += u"%st%d: %s\n" % (u"  " if sc["nested"] else u"", i, v)
        if sc["nested"]:
            text = u"plan:\n" + text
        with io.open(run.path("c.yaml"), "w") as f:
            f.write(text)
        for plan in run.plans("clock", [self.clock(rng, sc) for _ in range(sc["k"])]):
            getattr(self, sc["what"])(run, sc, plan)
            if any(x < 0 for x in plan.steps):
                run.stats.fire("clock_back")
                run.stats.probe("clock_jumps_back")
            if any(x >= 3600 * S for x in plan.steps):
                run.stats.fire("clock_jump")
            run.stats.traces.add("clock-%s-%s-%s" % (sc["what"], plan.clock, plan.steps))
        if not run.stats.samples:
            run.stats.samples.append({"times": sc["times"], "what": sc["what"], "clock": plan.clock, "steps": plan.steps} if sc["k"] else {})

    def measured(self, run, plan, fn):
        """(value, the moments the clock showed during the call)"""
        def call():
            n0 = run.L.sim_clock_reads()
            v = fn()
            return v, n0, run.L.sim_clock_reads()
        out = run.execute(call, plan)
        if out.exc is not None:
            raise Violation("raises", "at %s: %s" % (utc(plan.clock), exc_text(out.exc)), plan)
        v, n0, n1 = out.value
        now = plan.clock
        seen = []
        for i in range(n1):
            now += plan.steps[min(i, len(plan.steps) - 1)]
            if i >= n0:
                seen.append(utc(now))
        # a call that needs no reading of the clock could know the time before it
        if not seen:
            raise Violation("clock-not-read", "the result does not depend on the clock", plan)
        run.stats.note(plan.clock, [str(x) for x in seen])
        return v, seen

    def config(self, run, sc, plan):
        from hftools.file_formats.config import Config, LexicalConfig
        cls = LexicalConfig if sc["lexical"] else Config
        cfg, seen = self.measured(run, plan, lambda: cls(run.path("c.yaml")))
        if sc["nested"]:
            cfg = cfg["plan"]
        for i, (h, m, s, short) in enumerate(sc["times"]):
            got = cfg["t%d" % i]
            want = [next_time(n, h, m, 0 if short else s) for n in seen]
            if got not in want:
                raise Violation("wrong-time", "%02d:%02d%s loaded between %s and %s gives %s, not %s" %
                                (h, m, "" if short else ":%02d" % s, min(seen), max(seen), got, want[0]), plan)
            run.stats.probe("config_today" if got.date() == seen[0].date() else "config_tomorrow")
            if got == seen[0]:
                run.stats.probe("exactly_now")
            if got.day < seen[0].day:
                run.stats.probe("month_end")
        if min(seen).date() != max(seen).date():
            run.stats.probe("midnight_during_load")

    def stamp(self, run, sc, plan):
        from hftools.utils import timestamp
        v, seen = self.measured(run, plan, lambda: timestamp(sc["highres"]))
        if sc["highres"]:
            want = ["%s.%03d" % (n.strftime("%Y%m%dT%H%M%S"), n.microsecond // 1000) for n in seen]
        else:
            want = [n.strftime("%Y%m%dT%H%M%S") for n in seen]
        if v not in want:
            raise Violation("wrong-stamp", "timestamp(highres=%s) at %s is %r" % (sc["highres"], want, v), plan)
        run.stats.probe("timestamp_highres" if sc["highres"] else "timestamp")

    def mdif(self, run, sc, plan):
        import hftools.dataset as ds
        from hftools.file_formats import save_mdif
        db = ds.DataBlock()
        db.x = ds.hfarray([1.0, 2.0], dims=(ds.DimSweep("freq", [1.0, 2.0]),))
        db.blockname = "B"
        fn = run.path("x.mdif")
        _, seen = self.measured(run, plan, lambda: save_mdif(db, fn))
        with open(fn) as f:
            lines = [l for l in f if l.startswith("!Created")]
        if len(lines) != 1:
            raise Violation("wrong-stamp", "%d creation stamps in the file" % len(lines), plan)
        got = datetime.datetime.strptime(lines[0].split(":", 1)[1].strip(), "%a %b %d %H:%M:%S %Y")
        if got not in [n.replace(microsecond=0) for n in seen]:
            raise Violation("wrong-stamp", "creation stamp %s, saved at %s" % (got, seen[0]), plan)
        run.stats.probe("mdif_stamp")
