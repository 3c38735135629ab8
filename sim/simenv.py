"""Python side of the operating-system seam (simshim.c) and of one simulated run.

One run = one forked child of a warmed-up worker.  Inside it the real hftools,
numpy, h5py/HDF5 and CPython I/O code runs against the preloaded shim; nothing
the run does to files leaves its own scratch directory.
"""
import ctypes
import errno
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import traceback

OPEN, READ, WRITE, CLOSE, TRUNC, SYNC, RENAME, UNLINK, MKDIR, RMDIR, LIST, LINK = range(1, 13)
KIND = {1: "open", 2: "read", 3: "write", 4: "close", 5: "truncate", 6: "sync",
        7: "rename", 8: "unlink", 9: "mkdir", 10: "rmdir", 11: "list", 12: "link", 13: "stat", 14: "attributes"}
A_ERRNO, A_SHORT, A_CRASH, A_CRASH_AFTER, A_EIO_FROM = 1, 2, 3, 4, 5
CRASH_STATUS = 77


class LogRec(ctypes.Structure):
    _fields_ = [("idx", ctypes.c_long), ("kind", ctypes.c_int),
                ("action", ctypes.c_int), ("size", ctypes.c_long),
                ("result", ctypes.c_long), ("err", ctypes.c_int),
                ("mode", ctypes.c_int), ("path", ctypes.c_char * 160)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(None)
        L.sim_log_at.restype = ctypes.POINTER(LogRec)
        L.sim_log_at.argtypes = [ctypes.c_long]
        for name in ("sim_op_index", "sim_log_len", "sim_fired", "sim_clock_reads"):
            getattr(L, name).restype = ctypes.c_long
        L.sim_clock_now.restype = ctypes.c_int64
        L.sim_clock.argtypes = [ctypes.c_int64]
        L.sim_clock_step.argtypes = [ctypes.c_int64]
        L.sim_clock_advance.argtypes = [ctypes.c_int64]
        L.sim_plan_add.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_long]
        L.sim_set_budget.argtypes = [ctypes.c_long]
        L.sim_set_dead.argtypes = [ctypes.c_long, ctypes.c_int]
        L.sim_set_max_ops.argtypes = [ctypes.c_long]
        L.sim_begin.argtypes = [ctypes.c_char_p]
        L.sim_dir_order.argtypes = [ctypes.c_int, ctypes.c_uint64]
        L.sim_random.argtypes = [ctypes.c_uint64]
        L.sim_gate.argtypes = [ctypes.c_int, ctypes.c_int]
        L.sim_fd_path.restype = ctypes.c_char_p
        L.sim_reset()
        _lib = L
    return _lib


def exc_name(exc):
    """The type of an exception.  h5py 2.10 decodes the texts of HDF5's error stack after
    they were freed: now and then its OSError comes as a UnicodeDecodeError."""
    if isinstance(exc, UnicodeDecodeError):
        tb = exc.__traceback__
        while tb is not None:
            if "h5py" in tb.tb_frame.f_code.co_filename:
                return "OSError"
            tb = tb.tb_next
    return type(exc).__name__


class Violation(Exception):
    """The property is broken.  klass is stable under minimisation."""

    def __init__(self, klass, message, plan=None):
        Exception.__init__(self, "%s: %s" % (klass, message))
        self.klass = klass
        self.message = message
        self.plan = plan


class HarnessError(Exception):
    pass


T0 = 1400000000 * 10 ** 9


class Plan(object):
    """A fault schedule: explicit, JSON-able, independent of any PRNG."""

    def __init__(self, faults=(), budget=None, dead=None, clock=None,
                 steps=(), dirmode=0, dirseed=0, note="", sched=(), kill=None, per=None):
        self.faults = [list(f) for f in faults]    # [op index, action, arg]
        self.budget = budget                       # bytes left on the disk
        self.dead = dead                           # [from op, errno]
        self.clock = clock
        self.steps = list(steps)
        self.dirmode = dirmode
        self.dirseed = dirseed
        self.note = note
        self.sched = [list(x) for x in sched]      # [step, task]: switch to task at that step
        self.kill = kill                           # [task, step of that task]: kill it there
        self.per = per                             # {task: Plan json}: faults of each process

    def to_json(self):
        return dict(faults=self.faults, budget=self.budget, dead=self.dead,
                    clock=self.clock, steps=self.steps, dirmode=self.dirmode,
                    dirseed=self.dirseed, note=self.note, sched=self.sched,
                    kill=self.kill, per=self.per)

    @classmethod
    def from_json(cls, d):
        return cls(**d)

    def key(self):
        return json.dumps(self.to_json(), sort_keys=True)

    def describe(self):
        out = []
        for idx, act, arg in self.faults:
            out.append("op %d: %s" % (idx, {
                A_ERRNO: "fails with %s" % errno.errorcode.get(arg, arg),
                A_SHORT: "cut to %d bytes" % arg,
                A_CRASH: "process dies after %d bytes" % arg,
                A_CRASH_AFTER: "process dies right after it"}.get(act, act)))
        if self.budget is not None:
            out.append("disk full after %d bytes" % self.budget)
        if self.dead:
            out.append("device fails from op %d with %s" %
                       (self.dead[0], errno.errorcode.get(self.dead[1])))
        if self.dirmode:
            out.append("listing order mode %d seed %d" % (self.dirmode, self.dirseed))
        if self.sched:
            out.append("switches " + ", ".join("%s -> task %s" % ("step %d" % a if not isinstance(a, str) else a, b) for a, b in self.sched))
        if self.kill:
            out.append("task %s is killed before its operation %d" % tuple(self.kill))
        for k, v in sorted((self.per or {}).items()):
            out.append("task %s: %s" % (k, Plan.from_json(v).describe()))
        return "; ".join(out) or "no fault"

    def simpler(self):
        """Smaller schedules, for minimisation."""
        for i in range(len(self.faults)):
            p = Plan.from_json(self.to_json())
            del p.faults[i]
            yield p
        if self.budget is not None:
            p = Plan.from_json(self.to_json())
            p.budget = None
            yield p
        if self.dead:
            p = Plan.from_json(self.to_json())
            p.dead = None
            yield p
        if self.dirmode:
            p = Plan.from_json(self.to_json())
            p.dirmode = 0
            yield p
        n = len(self.sched)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                p = Plan.from_json(self.to_json())
                del p.sched[i:i + size]
                yield p
            size //= 2
        if self.kill:
            p = Plan.from_json(self.to_json())
            p.kill = None
            yield p
        for k in sorted(self.per or {}):
            p = Plan.from_json(self.to_json())
            del p.per[k]
            yield p


NOTES = os.environ.get("SIM_NOTES")     # debugging: where to write every note
NOTE_FILE = ["none"]


class Stats(object):
    def __init__(self):
        self.execs = 0          # executions of the system under one plan
        self.ops = 0            # simulated OS operations
        self.fired = {}         # fault kind -> times it actually fired
        self.sim_ns = 0
        self.probes = {}
        self.traces = set()     # digests of (operation, outcome) traces
        self.schedules = set()  # digests of thread interleavings
        self.digest = hashlib.sha256()
        self.samples = []

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *items):
        """Feed the event log digest (determinism proof)."""
        if NOTES:
            with open("%s/%s" % (NOTES, NOTE_FILE[0]), "a") as f:
                f.write(repr(items)[:300] + "\n")
        self.digest.update(repr(items).encode("utf-8", "replace"))

    def fire(self, kind, n=1):
        if n:
            self.fired[kind] = self.fired.get(kind, 0) + n

    def merge(self, other):
        self.execs += other.execs
        self.ops += other.ops
        self.sim_ns += other.sim_ns
        for a, b in ((self.fired, other.fired), (self.probes, other.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.traces |= other.traces
        self.schedules |= other.schedules


class Outcome(object):
    __slots__ = ("value", "exc", "log", "leaked", "crashed", "hung", "open_w",
                 "leaked_paths", "fired")

    def __init__(self):
        self.value = self.exc = None
        self.log = []
        self.leaked = 0
        self.leaked_paths = []
        self.open_w = 0
        self.crashed = self.hung = False
        self.fired = 0


def fmt_log(log):
    return ["%d %s %s size=%d -> %s%s" % (i, KIND.get(k, k), p, size, res,
            " " + errno.errorcode.get(err, str(err)) if err else "")
            for (i, k, act, size, res, err, mode, p) in log]


class Run(object):
    """One simulated run: scratch root, virtual clock, fault plan, recording."""

    MAX_OPS = 20000

    def __init__(self, root, seed, stats=None):
        self.root = os.path.realpath(root)
        self.seed = seed
        self.rng = random.Random("run-%s" % seed)
        self.stats = stats or Stats()
        NOTE_FILE[0] = str(seed).replace("/", "_")
        self.only_plan = None       # replay: run this plan only
        self.L = lib()
        self.clock0 = T0

    def plans(self, tag, candidates):
        """The fault schedules to run in one phase; on replay only the
        recorded one."""
        if self.only_plan is not None:
            return [self.only_plan] if self.only_plan.note == tag else []
        for p in candidates:
            p.note = tag
        return list(candidates)

    def derived(self, tag):
        return random.Random("%s-%s" % (tag, self.seed))

    # -- file helpers (never part of the simulated operations) --
    def path(self, *p):
        return os.path.join(self.root, *p)

    def clean(self):
        for n in os.listdir(self.root):
            p = os.path.join(self.root, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def snapshot(self):
        out = {}
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fil:
                    out[os.path.relpath(p, self.root)] = fil.read()
        return out

    def restore(self, snap):
        self.clean()
        for rel, data in snap.items():
            p = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fil:
                fil.write(data)

    # -- one execution --
    def execute(self, fn, plan=None, keep_exc=True):
        """Run fn() in this process under plan; return its Outcome."""
        L = self.L
        plan = plan or Plan()
        out = Outcome()
        L.sim_reset()
        L.sim_set_max_ops(self.MAX_OPS)
        L.sim_random(self.rng_seed())
        L.sim_clock(self.clock0 if plan.clock is None else plan.clock)
        for s in plan.steps:
            L.sim_clock_step(s)
        if not plan.steps:
            L.sim_clock_step(1000003)      # every clock read costs about 1 ms
        for f in plan.faults:
            L.sim_plan_add(*f)
        if plan.budget is not None:
            L.sim_set_budget(plan.budget)
        if plan.dead:
            L.sim_set_dead(plan.dead[0], plan.dead[1])
        L.sim_dir_order(plan.dirmode, plan.dirseed)
        L.sim_begin(self.root.encode())
        try:
            out.value = fn()
        except Violation:
            L.sim_pause()
            raise
        except Exception as e:
            out.exc = e
        finally:
            L.sim_pause()
            L.sim_plan_clear()
        # handles still open now, while the exception (and the frames it
        # holds on to) is alive: what a caller that logs the error would see
        out.leaked = L.sim_open_fds(0)
        out.open_w = L.sim_open_fds(1)
        if out.leaked:
            out.leaked_paths = [os.path.relpath(L.sim_fd_path(i).decode(), self.root)
                                for i in range(3, 200) if L.sim_fd_path(i)]
        self._collect(out, plan.budget is not None)
        return out

    def execute_value(self, fn, plan):
        """Run fn under plan; Violations carry the plan, other errors are ours."""
        try:
            out = self.execute(fn, plan)
        except Violation as v:
            if v.plan is None:
                v.plan = plan
            raise
        if out.exc is not None:
            raise out.exc
        return out.value

    def must(self, fn, klass="save-raises"):
        """Run fn without faults; it has to succeed."""
        out = self.execute(fn)
        if out.exc is not None:
            raise Violation(klass, "%s: %s" % (type(out.exc).__name__, out.exc))
        return out.value

    def rng_seed(self):
        return (hash_int(self.seed) & 0xFFFFFFFF) | 1

    def _collect(self, out, limited=False):
        L = self.L
        st = self.stats
        n = L.sim_log_len()
        log = []
        for i in range(n):
            r = L.sim_log_at(i).contents
            log.append((r.idx, r.kind, r.action, r.size, r.result, r.err,
                        r.mode, r.path.decode("utf-8", "replace")))
        out.log = log
        st.execs += 1
        st.ops += n
        now = L.sim_clock_now()
        st.sim_ns += abs(now - T0) % (10 ** 9 * 3600 * 24)
        for (i, k, act, size, res, err, mode, p) in log:
            if act == A_ERRNO:
                name = errno.errorcode.get(err, str(err))
                st.fire("disk_full" if limited and err == errno.ENOSPC and k == WRITE else "%s:%s" % (KIND[k], name))
                out.fired += 1
            elif act == A_SHORT and (size < 0 or res < size):
                st.fire("short_%s" % KIND[k])
                out.fired += 1
            elif act == A_EIO_FROM:
                st.fire("device_dead:%s" % KIND[k])
                out.fired += 1
        h = hashlib.sha256()
        for (i, k, act, size, res, err, mode, p) in log:
            h.update(("%d %d %d %d %s\n" % (k, act, size, err, p)).encode())
        h.update(exc_name(out.exc).encode())
        if out.fired:
            st.traces.add(h.hexdigest()[:16])
        st.note(h.hexdigest(), exc_name(out.exc))

    def forked(self, fn, plan=None, cpu=60, text=False):
        """Run fn() under plan in a child of its own (crash points, anything
        that leaves libraries in an undefined state).  The value comes back
        pickled; what it left on disk stays."""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                st0 = self.stats
                self.stats = Stats()
                out = self.execute(fn, plan)
                exc = None
                if out.exc is not None:
                    exc = (type(out.exc).__name__, str(out.exc)[:400],
                           isinstance(out.exc, EnvironmentError),
                           getattr(out.exc, "errno", None))
                payload = pickle.dumps(("ok", out.value, exc, out.log, out.leaked,
                                        out.leaked_paths, out.open_w, out.fired, self.stats_tuple()))
                code = 0
            except Violation as v:
                payload = pickle.dumps(("violation", v.klass, v.message, v.plan))
                code = 0
            except BaseException:
                payload = pickle.dumps(("harness", traceback.format_exc()))
                code = 0
            try:
                with os.fdopen(w, "wb") as f:
                    f.write(payload)
            finally:
                os._exit(code)
        os.close(w)
        data = b""
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        out = Outcome()
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASH_STATUS and not data:
            out.crashed = True
            self.stats.execs += 1
            self.stats.fire("crash")
            self.stats.note("crash", plan.key() if plan else "")
            self.stats.traces.add(hashlib.sha256(("crash" + (plan.key() if plan else "")).encode()).hexdigest()[:16])
            return out
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99 or \
                os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU, signal.SIGKILL):
            out.hung = True
            self.stats.execs += 1
            self.stats.note("hung")
            return out
        if not data:
            if os.WIFSIGNALED(status):
                # The library died (HDF5 can abort after I/O errors)
                out.crashed = True
                out.exc = ("Signal", "signal %d" % os.WTERMSIG(status), False, None)
                self.stats.execs += 1
                self.stats.note("signal", os.WTERMSIG(status))
                return out
            raise HarnessError("child vanished, status %r" % status)
        msg = pickle.loads(data)
        if msg[0] == "violation":
            raise Violation(msg[1], msg[2], msg[3])
        if msg[0] == "harness":
            raise HarnessError(msg[1])
        _, out.value, out.exc, out.log, out.leaked, out.leaked_paths, out.open_w, out.fired, st = msg
        self.merge_tuple(st)
        return out

    def parallel(self, fns, plan=None, cpu=60, max_steps=20000):
        """Run each fn in a process of its own, all sharing the scratch
        directory; they advance one operating-system operation at a time, in
        the order the plan's schedule says.  Returns the outcomes and the
        trace [(task, kind, path)]."""
        plan = plan or Plan()
        L = self.L
        procs = []
        for n, fn in enumerate(fns):
            req_r, req_w = os.pipe()       # child -> scheduler
            tok_r, tok_w = os.pipe()       # scheduler -> child
            res_r, res_w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 70
                payload = b""
                try:
                    for q in procs:
                        for fd in q["fds"]:
                            os.close(fd)
                    for fd in (req_r, tok_w, res_r):
                        os.close(fd)
                    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                    self.stats = Stats()
                    sub = Plan.from_json(plan.per[str(n)]) if plan.per and str(n) in plan.per else Plan()
                    self.seed = "%s/%d" % (self.seed, n)
                    L.sim_gate(req_w, tok_r)
                    # a first gate before anything happens
                    out = self.execute(fn, sub)
                    L.sim_gate(-1, -1)
                    exc = None
                    if out.exc is not None:
                        exc = (type(out.exc).__name__, str(out.exc)[:400],
                               isinstance(out.exc, EnvironmentError), getattr(out.exc, "errno", None))
                    payload = pickle.dumps(("ok", out.value, exc, out.log, out.leaked, out.leaked_paths,
                                            out.open_w, out.fired, self.stats_tuple()))
                    code = 0
                except BaseException:
                    L.sim_gate(-1, -1)
                    payload = pickle.dumps(("harness", traceback.format_exc()))
                    code = 0
                try:
                    with os.fdopen(res_w, "wb") as f:
                        f.write(payload)
                finally:
                    os._exit(code)
            for fd in (req_w, tok_r, res_w):
                os.close(fd)
            procs.append(dict(pid=pid, req=req_r, tok=tok_w, res=res_r, fds=(req_r, tok_w, res_r),
                              wait=None, done=False, steps=0, data=b"", killed=False))

        def settle(q):
            """Let q run until its next operation or its end."""
            msg = b""
            while len(msg) < 128:
                # drain the result pipe too: a big result must not block the child
                ready, _, _ = select.select([q["req"]] + ([q["res"]] if q["res"] is not None else []), [], [])
                if q["res"] in ready:
                    d = os.read(q["res"], 1 << 20)
                    if d:
                        q["data"] += d
                    else:
                        os.close(q["res"])
                        q["res"] = None
                if q["req"] in ready:
                    d = os.read(q["req"], 128 - len(msg))
                    if not d:
                        break
                    msg += d
            if len(msg) == 128:
                q["wait"] = (int.from_bytes(msg[:4], "little"), msg[4:].split(b"\0")[0].decode("utf-8", "replace"))
            else:
                while q["res"] is not None:
                    d = os.read(q["res"], 1 << 20)
                    if d:
                        q["data"] += d
                    else:
                        os.close(q["res"])
                        q["res"] = None
                q["wait"] = None
                q["done"] = True
                os.close(q["req"])
                os.close(q["tok"])
                q["status"] = os.waitpid(q["pid"], 0)[1]

        for q in procs:
            settle(q)
        trace = []
        forced = dict((a, b) for a, b in plan.sched)
        cur = 0
        step = 0
        hung = False
        while any(not q["done"] for q in procs):
            ready = [i for i, q in enumerate(procs) if not q["done"]]
            if step in forced and forced[step] in ready:
                cur = forced[step]
            elif cur not in ready:
                cur = ready[0]
            q = procs[cur]
            trace.append((cur,) + q["wait"])
            tok = b"g"
            if plan.kill and plan.kill[0] == cur and plan.kill[1] == q["steps"]:
                tok = b"k"
                q["killed"] = True
                self.stats.fire("process_killed")
            q["steps"] += 1
            step += 1
            if step > max_steps:
                tok = b"k"
                hung = True
            os.write(q["tok"], tok)
            settle(q)
        outs = []
        for n, q in enumerate(procs):
            out = Outcome()
            out.hung = hung
            st = q["status"]
            if not q["data"]:
                if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASH_STATUS:
                    out.crashed = True
                    if not q["killed"] and not hung:
                        self.stats.fire("crash")
                elif os.WIFEXITED(st) and os.WEXITSTATUS(st) == 99 or os.WIFSIGNALED(st) and \
                        os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
                    out.hung = True
                elif os.WIFSIGNALED(st):
                    out.crashed = True
                    out.exc = ("Signal", "signal %d" % os.WTERMSIG(st), False, None)
                else:
                    raise HarnessError("process %d vanished, status %r" % (n, st))
            else:
                msg = pickle.loads(q["data"])
                if msg[0] == "harness":
                    raise HarnessError(msg[1])
                _, out.value, out.exc, out.log, out.leaked, out.leaked_paths, out.open_w, out.fired, stt = msg
                self.merge_tuple(stt)
            outs.append(out)
        h = hashlib.sha256(repr(trace).encode()).hexdigest()
        if sum(1 for a, b in zip(trace, trace[1:]) if a[0] != b[0]) >= len(procs):
            self.stats.schedules.add(h[:16])
        self.stats.note(h)
        return outs, trace

    def stats_tuple(self):
        st = self.stats
        return (st.execs, st.ops, st.fired, st.sim_ns, st.probes, st.traces,
                st.schedules, st.digest.hexdigest())

    def merge_tuple(self, t):
        s = Stats()
        (s.execs, s.ops, s.fired, s.sim_ns, s.probes, s.traces, s.schedules, d) = t
        self.stats.merge(s)
        self.stats.note(d)


def hash_int(x):
    return int(hashlib.sha256(str(x).encode()).hexdigest()[:15], 16)


# ---------------------------------------------------------------- fault plans
ERR_OPEN_W = [errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE, errno.EIO]
ERR_OPEN_R = [errno.EACCES, errno.EMFILE, errno.ENFILE, errno.EIO, errno.ENOENT]
ERR_WRITE = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
ERR_READ = [errno.EIO, errno.ESTALE]
ERR_CLOSE = [errno.EIO, errno.ENOSPC, errno.EDQUOT]


def is_write_mode(mode):
    return (mode & os.O_ACCMODE) != os.O_RDONLY


def hard_faults(log, rng, only_write=True):
    """Every single-fault schedule that must make the call fail, one per
    (operation, error) with the error drawn at random."""
    out = []
    for (i, k, act, size, res, err, mode, p) in log:
        if err:
            continue        # the operation failed on its own in the clean run
        if k == OPEN:
            out.append(Plan([[i, A_ERRNO, rng.choice(ERR_OPEN_W if is_write_mode(mode) else ERR_OPEN_R)]]))
        elif k == WRITE and size > 0:
            out.append(Plan([[i, A_ERRNO, rng.choice(ERR_WRITE)]]))
        elif k == CLOSE and is_write_mode(mode):
            out.append(Plan([[i, A_ERRNO, rng.choice(ERR_CLOSE)]]))
        elif k == READ and not only_write:
            out.append(Plan([[i, A_ERRNO, rng.choice(ERR_READ)]]))
        elif k in (TRUNC, SYNC, RENAME, MKDIR):
            out.append(Plan([[i, A_ERRNO, errno.EIO]]))
    return out


def total_written(log):
    return sum(max(r[4], 0) for r in log if r[1] == WRITE)


def random_schedule(rng, ntasks, length, k=None):
    """Preemptions: mostly few at random places (bugs need few), sometimes many."""
    if k is None:
        k = rng.choice([1, 2, 2, 3, 3, 4, 6, 10, length])
    k = min(k, max(1, length))
    steps = sorted(rng.sample(range(max(length, k)), k))
    return [[s, rng.randrange(ntasks)] for s in steps]


def benign_plan(log, rng):
    """Legal but unusual OS behaviour that must change nothing: short reads
    and writes, interrupted calls."""
    faults = []
    cand = [r for r in log if r[1] in (READ, WRITE) and r[3] > 1]
    rng.shuffle(cand)
    for r in cand[:rng.randint(1, max(1, min(6, len(cand))))]:
        if rng.random() < 0.3:
            faults.append([r[0], A_ERRNO, errno.EINTR])
        else:
            top = r[4] if r[4] > 1 else r[3]
            faults.append([r[0], A_SHORT, rng.randint(1, max(1, top - 1))])
    return Plan(faults)
