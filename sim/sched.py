"""Deterministic threads: real threads of the code under test, of which one
runs at a time; they change over only where the schedule says so, counted in
executed lines (or bytecodes) of hftools."""
import hashlib
import os
import sys
import threading
import _thread

from simenv import Violation, HarnessError

REPO = os.path.realpath(os.environ.get("SIM_REPO", "/repo"))
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock
CURRENT = [None]
LINES = None        # debugging: every traced line


class Deadlock(Violation):
    def __init__(self, message):
        Violation.__init__(self, "deadlock", message)


class _SimLockBase(object):
    def acquire(self, blocking=True, timeout=-1):
        if self._lock.acquire(False):
            return True
        sim = CURRENT[0]
        if sim is None or not sim.inside():
            return self._lock.acquire(blocking, timeout)
        if not blocking:
            return False
        while True:
            sim.blocked_on_lock()
            if self._lock.acquire(False):
                sim.unblocked()
                return True

    def release(self):
        self._lock.release()
        sim = CURRENT[0]
        if sim is not None and sim.inside():
            sim.lock_released()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._lock, name)


class SimLock(_SimLockBase):
    def __init__(self):
        self._lock = _real_lock()


class SimRLock(_SimLockBase):
    def __init__(self, *a):
        self._lock = _real_rlock()


def install_locks():
    """Before hftools is imported: its locks become ones the scheduler knows."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


class ThreadSim(object):
    WALL = 100

    def __init__(self, sched=(), opcodes=False, max_steps=2000000):
        # [step, thread]: change over at that many executed lines; ["file:function:place:n@k", thread]: when
        # thread k gets to that place for the n-th time; ["start", thread]: who begins
        self.forced = dict((a, b) for a, b in sched if not isinstance(a, str))
        self.points = dict((a, b) for a, b in sched if isinstance(a, str))
        self.first = self.points.pop("start", 0)
        # only places asked for: nothing else needs tracing
        self.only = set(":".join(a.split(":")[:2]) for a in self.points) if not self.forced and sched else None
        self.seen = {}
        self.record = None      # {place@thread: times}
        self.names = {}
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.step = 0
        self.pending = None
        self.switches = []
        self.error = None
        self.ids = {}
        self.root = os.path.join(REPO, "hftools") + os.sep
        self.codes = {}
        self.on_step = None

    # -- queries
    def inside(self):
        return _thread.get_ident() in self.ids

    def me(self):
        return self.ids[_thread.get_ident()]

    # -- tracing
    def mine(self, code):
        r = self.codes.get(code)
        if r is None:
            f = os.path.realpath(code.co_filename)
            r = f.startswith(self.root)
            if r:
                self.names[code] = "%s:%s" % (f[len(self.root):].replace(":", "_"), code.co_name)
                if self.only is not None and self.names[code] not in self.only:
                    r = False
            self.codes[code] = r
        return r

    def tracer(self, frame, event, arg):
        if not self.mine(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step += 1
            if LINES is not None:
                LINES.append((self.me(), frame.f_code.co_filename[-20:], frame.f_lineno, frame.f_lasti))
            if self.step in self.forced:
                self.pending = self.forced[self.step]
            if self.points or self.record is not None:
                key = "%s:%d@%d" % (self.names[frame.f_code], frame.f_lasti if self.opcodes else frame.f_lineno, self.me())
                n = self.seen[key] = self.seen.get(key, 0) + 1
                if self.points:
                    a, b = key.split("@")
                    t = self.points.get("%s:%d@%s" % (a, n, b))
                    if t is not None:
                        self.pending = t
            if self.pending is not None:
                self.try_switch(frame)
            if self.step > self.max_steps and self.error is None:
                self.error = Violation("hang", "more than %d lines executed" % self.max_steps)
        return self.local

    def try_switch(self, frame):
        t = self.pending
        if t == self.cur or t >= self.n or self.state[t] == "done":
            self.pending = None
            return
        f = frame
        while f is not None:
            # not while a library that takes locks of its own is on the stack
            if "h5py" in f.f_code.co_filename or "/logging/" in f.f_code.co_filename and f.f_code.co_name in ("addHandler", "removeHandler"):
                return
            f = f.f_back
        self.pending = None
        self.switch(t)

    # -- the baton
    def switch(self, t):
        me = self.me()
        self.switches.append((self.step if self.only is None else self.total(), me, t))
        self.cur = t
        self.gate[t].release()
        self.wait(me)

    def total(self):
        return tuple(sorted(self.seen.items()))

    def wait(self, me):
        if not self.gate[me].acquire(True, self.WALL):
            self.error = self.error or HarnessError("thread %d waited too long (real lock held across a switch?)" % me)
            os._exit(98)
        self.cur = me

    def blocked_on_lock(self):
        me = self.me()
        self.state[me] = "blocked"
        ready = [i for i in range(self.n) if self.state[i] == "ready"]
        if not ready:
            # everybody who waits for a lock tries again; a full round without progress is a deadlock
            self.spins += 1
            ready = [i for i in range(self.n) if self.state[i] == "blocked" and i != me]
            if not ready or self.spins > 4 * self.n:
                raise Deadlock("all threads wait for locks")
        nxt = [i for i in ready if i > me] or ready
        self.switch(nxt[0])

    def unblocked(self):
        self.state[self.me()] = "ready"
        self.spins = 0

    def lock_released(self):
        for i in range(self.n):
            if self.state[i] == "blocked":
                self.state[i] = "ready"
        self.spins = 0

    # -- run
    def body(self, k, fn):
        self.ids[_thread.get_ident()] = k
        self.started[k].release()
        self.wait(k)
        try:
            sys.settrace(self.tracer)
            try:
                self.values[k] = fn()
            finally:
                sys.settrace(None)
        except Violation as v:
            self.error = self.error or v
        except Exception as e:
            self.excs[k] = e
        self.state[k] = "done"
        ready = [i for i in range(self.n) if self.state[i] == "ready"] or [i for i in range(self.n) if self.state[i] == "blocked"]
        if ready:
            nxt = ([i for i in ready if i > k] or ready)[0]
            self.switches.append((self.step, k, nxt))
            self.cur = nxt
            self.gate[nxt].release()
        else:
            self.finished.release()

    def run(self, fns):
        """All fns at once; (values, exceptions)."""
        self.n = len(fns)
        self.gate = [_real_lock() for _ in fns]
        self.started = [_real_lock() for _ in fns]
        self.finished = _real_lock()
        for l in self.gate + self.started + [self.finished]:
            l.acquire()
        self.state = ["ready"] * self.n
        self.values = [None] * self.n
        self.excs = [None] * self.n
        self.spins = 0
        self.cur = self.first if self.first < self.n else 0
        CURRENT[0] = self
        try:
            for k, fn in enumerate(fns):
                _thread.start_new_thread(self.body, (k, fn))
                self.started[k].acquire()
            self.gate[self.cur].release()
            if not self.finished.acquire(True, self.WALL * 2):
                raise HarnessError("threads do not end")
        finally:
            CURRENT[0] = None
        if self.error is not None:
            raise self.error
        return self.values, self.excs

    def places(self):
        """[thread -> {place: times}] of this run."""
        out = [dict() for _ in range(self.n)]
        for key, n in self.seen.items():
            a, b = key.split("@")
            out[int(b)][a] = n
        return out

    def digest(self):
        return hashlib.sha256(repr(self.switches).encode()).hexdigest()[:16]


_HOT = []
_WRITES = ("STORE_SUBSCR", "DELETE_SUBSCR", "STORE_ATTR", "DELETE_ATTR", "STORE_SLICE")
_MUTATORS = ("append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "add", "remove", "discard", "sort",
             "appendleft", "popleft", "fill", "resize", "seek", "write", "push", "__setitem__", "move_to_end")


def hot_functions():
    """"file:function" of all functions of hftools that change something other
    threads can reach: a global, an attribute of a class, module or function, a
    container in one of these, a default argument, a closure.  They only guide
    where threads are stopped; nothing is judged by them."""
    if not _HOT:
        _HOT.append(_find_hot())
    return _HOT[0]


def _find_hot():
    import dis
    import types
    root = os.path.join(REPO, "hftools") + os.sep
    plain = (str, bytes, int, float, complex, bool, type(None), types.ModuleType, type, types.FunctionType, types.BuiltinFunctionType, type(os.path.join))
    out = set()
    codes = {}

    def shared(x):
        return not isinstance(x, plain) and type(x).__module__ != "re"

    def visit(code, glob, params):
        if id(code) in codes:
            return
        codes[id(code)] = code
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "PRECALL", "RESUME", "EXTENDED_ARG")]
        names = [i.opname for i in ins]
        writes = any(n in _WRITES for n in names) or any(i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in _MUTATORS for i in ins)
        hot = any(n in ("STORE_GLOBAL", "DELETE_GLOBAL") for n in names)
        hot = hot or any(n == "STORE_DEREF" for n in names) and bool(code.co_freevars)
        if writes and not hot:
            hot = bool(code.co_freevars) or bool(params & set(code.co_varnames[:code.co_argcount + code.co_kwonlyargcount]))
            for i in ins:
                if hot:
                    break
                if i.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                    hot = shared(glob.get(i.argval))
                elif i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in classattrs:
                    hot = True
        for a, b in zip(ins, ins[1:]):
            if b.opname in ("STORE_ATTR", "DELETE_ATTR") and (a.opname == "LOAD_GLOBAL" and isinstance(glob.get(a.argval), plain) or
                                                              a.opname == "LOAD_FAST" and a.argval == "cls" or
                                                              a.opname == "LOAD_ATTR" and a.argval == "__class__" or a.opname.startswith("CALL")):
                hot = True
        if hot:
            out.add("%s:%s" % (os.path.realpath(code.co_filename)[len(root):].replace(":", "_"), code.co_name))
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                visit(c, glob, set())

    mods = [m for n, m in sorted(sys.modules.items()) if n.split(".")[0] == "hftools" and os.path.realpath(getattr(m, "__file__", "") or "").startswith(root)]
    classes = {}
    for m in mods:
        for v in vars(m).values():
            if isinstance(v, type) and v.__module__.split(".")[0] == "hftools":
                classes[id(v)] = v
    classattrs = set(k for c in classes.values() for k, v in vars(c).items() if not k.startswith("__") and shared(v) and
                     not isinstance(v, (property, classmethod, staticmethod)))
    for m in mods:
        for v in list(vars(m).values()) + [x for c in classes.values() for x in vars(c).values()]:
            v = getattr(v, "fget", None) or getattr(v, "__func__", None) or v
            v = getattr(v, "__wrapped__", v)
            if isinstance(v, types.FunctionType) and os.path.realpath(v.__code__.co_filename).startswith(root):
                a = v.__code__
                names = a.co_varnames[:a.co_argcount]
                mutable = set(n for n, x in zip(names[::-1], (v.__defaults__ or ())[::-1]) if shared(x) and not isinstance(x, tuple))
                visit(a, v.__globals__, mutable)
    return out


def place_schedule(rng, places):
    """One thread stops at a place of the code (every place as likely as any
    other, however often it is passed), another one runs to its end or up to
    a place of its own; then the first goes on."""
    n = len(places)
    a = rng.randrange(n)
    b = rng.choice([i for i in range(n) if i != a])
    if not places[a] or not places[b]:
        return [["start", a]]
    mine = sorted(places[a])
    if rng.random() < 0.6:      # where the other one comes by as well
        files = set(x.rsplit(":", 1)[0] for x in places[b])
        mine = [x for x in mine if x.rsplit(":", 1)[0] in files] or mine
    hot = hot_functions()
    warm = {}
    for x in sorted(places[a]):
        if x.rsplit(":", 1)[0] in hot:
            warm.setdefault(x.rsplit(":", 1)[0], []).append(x)
    if warm and rng.random() < 0.4:
        mine = warm[rng.choice(sorted(warm))]
    sched = [["start", a]]

    def point(k, where, to):
        p = rng.choice(where)
        c = places[k][p]
        sched.append(["%s:%d@%d" % (p, rng.choice([1, c, rng.randint(1, c)]), k), to])
        return p
    p = point(a, mine, b)
    if rng.random() < 0.4:
        f = p.rsplit(":", 1)[0]
        same = [x for x in sorted(places[b]) if x.rsplit(":", 1)[0] == f]
        point(b, same if same and rng.random() < 0.6 else sorted(places[b]), a)
    return sched
