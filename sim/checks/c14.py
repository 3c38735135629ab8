"""Switching the log on and off from many threads."""
import io
import logging
import sys

from base import BaseCheck
from savecheck import exc_text
from sched import ThreadSim, install_locks
from simenv import Plan, Violation, random_schedule


class Check(BaseCheck):
    id = "C14"
    level = "exploration"
    runs = {"quick": 1000, "thorough": 20000}
    per = {"quick": 12, "thorough": 40}
    probes = ("interleaved", "message_while_on", "message_while_off", "message_overlapping", "double_start", "double_stop")
    stubs = ["threading.Lock/RLock (cooperative, over the real ones)", "thread scheduler (sys.settrace, one thread at a time)", "sys.stderr (recorded)"]
    assumptions = ["threads change over between lines or bytecodes of hftools, not inside the logging module's own code"]

    def prepare(self):
        install_locks()

    def scenario(self, r, tier):
        n = r.choice([2, 2, 3, 4])
        return dict(threads=[[r.choice(["start", "start", "start", "start", "stop", "stop", "log", "warn", "error", "child"]) for _ in range(r.randint(1, 5))] for _ in range(n)],
                    before=r.random() < 0.3, opcodes=r.random() < 0.6, k=self.per[tier])

    def shrink(self, sc):
        t = sc["threads"]
        for i in range(len(t)):
            if len(t) > 2:
                yield dict(sc, threads=t[:i] + t[i + 1:])
            for j in range(len(t[i])):
                if len(t[i]) > 1:
                    yield dict(sc, threads=t[:i] + [t[i][:j] + t[i][j + 1:]] + t[i + 1:])
        if sc["before"]:
            yield dict(sc, before=False)

    def one(self, sc, sched):
        from hftools import logger as lg
        base = [h for h in lg.logger.handlers]
        if getattr(lg, "_stream_handler", None):
            lg.stop_log()
            base = [h for h in lg.logger.handlers]
        err = io.StringIO()
        old = sys.stderr
        sys.stderr = err
        events = []          # (thread, op, "call"/"return", text)
        sim = ThreadSim(sched, opcodes=sc["opcodes"])
        too_many = []

        def extra():
            return [h for h in lg.logger.handlers if h not in base]

        def thread(k, ops):
            def fn():
                for i, op in enumerate(ops):
                    msg = "message %d.%d end" % (k, i)
                    kind = op if op in ("start", "stop") else "log"
                    events.append((k, kind, "call", msg))
                    if op == "start":
                        lg.start_log()
                    elif op == "stop":
                        lg.stop_log()
                    elif op == "warn":
                        lg.logger.warning("message %d.%d %s", k, i, "end")
                    elif op == "error":
                        try:
                            raise ValueError("bad data")
                        except ValueError:
                            lg.logger.error(msg, exc_info=True)
                    elif op == "child":
                        logging.getLogger("hftools.plotting").warning(msg)
                    else:
                        lg.logger.info(msg)
                    events.append((k, kind, "return", msg))
                    if len(extra()) > 1:
                        too_many.append((k, op, i))
            return fn
        try:
            if sc["before"]:
                lg.start_log()
            values, excs = sim.run([thread(k, ops) for k, ops in enumerate(sc["threads"])])
            for k, e in enumerate(excs):
                if e is not None:
                    raise Violation("raises", "thread %d: %s" % (k, exc_text(e)))
            if too_many:
                raise Violation("two-handlers", "more than one handler installed after %r" % (too_many[0],))
            # after the dust has settled
            n_end = len(extra())
            self.messages(sc, events, err.getvalue())
            # possible final states: the last start/stop of some order
            last = set()
            for k, ops in enumerate(sc["threads"]):
                c = [o for o in ops if o in ("start", "stop")]
                if c:
                    last.add(c[-1])
            if not last:
                last = {"start" if sc["before"] else "stop"}
            if n_end == 0 and last == {"start"} or n_end == 1 and last == {"stop"}:
                raise Violation("wrong-state", "every thread's last call was %s, yet %d handlers are installed" % (last, n_end))
            lg.start_log()
            mark = len(err.getvalue())
            lg.logger.info("probe on")
            if err.getvalue()[mark:].count("probe on") != 1:
                raise Violation("not-exactly-once", "with the log on, one message appears %d times" % err.getvalue()[mark:].count("probe on"))
            lg.stop_log()
            mark = len(err.getvalue())
            lg.logger.info("probe off")
            lg.logger.error("probe off")
            if err.getvalue()[mark:] or extra():
                raise Violation("cannot-stop", "after stop_log messages still appear: %d handlers left" % len(extra()))
            # stderr may be another one by the time it is switched on again
            sys.stderr = other = io.StringIO()
            mark = len(err.getvalue())
            lg.start_log()
            lg.logger.info("probe again")
            lg.stop_log()
            if other.getvalue().count("probe again") != 1 or err.getvalue()[mark:]:
                raise Violation("wrong-stderr", "switched on again after sys.stderr was replaced, the log has %r on the new and %r on the old" % (other.getvalue(), err.getvalue()[mark:]))
            return sim
        finally:
            sys.stderr = old
            for h in extra():
                lg.logger.removeHandler(h)
            if getattr(lg, "_stream_handler", None):
                lg.stop_log()

    def messages(self, sc, events, text):
        """Each message at most once; exactly once when the log was on all the
        time it was written, never when it was off all the time."""
        cur = {"on"} if sc["before"] else {"off"}     # the states the log may be in
        spans = {}
        running = {}
        active = {}        # thread -> [op, did an opposite call overlap it]
        for k, op, what, msg in events:
            if what == "call":
                if op == "log":
                    spans[msg] = set(cur)
                    running[k] = msg
                    continue
                mixed = False
                for o in active.values():
                    if o[0] != op:
                        o[1] = mixed = True
                active[k] = [op, mixed]
                cur = cur | {"on" if op == "start" else "off"}
            else:
                if op == "log":
                    del running[k]
                    continue
                if active.pop(k)[1]:
                    cur = {"on", "off"}
                elif not any(o[0] != op for o in active.values()):
                    cur = {"on" if op == "start" else "off"}
            for m in running.values():
                spans[m] |= cur
        for msg, st in spans.items():
            n = text.count(msg)
            if n > 1:
                raise Violation("not-exactly-once", "%r appears %d times" % (msg, n))
            if st == {"on"} and n != 1:
                raise Violation("lost-message", "%r was logged while the log was on, but does not appear" % msg)
            if st == {"off"} and n != 0:
                raise Violation("unwanted-message", "%r was logged while the log was off, but appears" % msg)
        self.spans = spans

    def run(self, run, sc):
        rng = run.derived("c14")
        sim = run.execute_value(lambda: self.one(sc, []), None)
        length = max(sim.step, 2)
        cand = [Plan(sched=random_schedule(rng, len(sc["threads"]), length)) for _ in range(sc["k"])]
        for plan in run.plans("threads", cand):
            sim = run.execute_value(lambda: self.one(sc, plan.sched), plan)
            run.stats.schedules.add(sim.digest())
            run.stats.fire("thread_switch", len(sim.switches))
            run.stats.note(sim.digest())
            run.stats.probe("interleaved")
            for st in self.spans.values():
                run.stats.probe("message_overlapping" if len(st) > 1 else "message_while_" + list(st)[0])
        for ops in sc["threads"]:
            for a, b in zip(ops, ops[1:]):
                if a == b and a in ("start", "stop"):
                    run.stats.probe("double_" + a)
        if not run.stats.samples:
            run.stats.samples.append({"threads": sc["threads"], "opcodes": sc["opcodes"], "switches": sim.switches[:8]})
