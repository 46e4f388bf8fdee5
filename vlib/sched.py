"""Deterministic thread schedules.

The threads of a run are real threads of which one runs at a time.  At every line (or bytecode) of the traced files the
running thread asks whether to hand over; a schedule is a list of [points, thread] pairs: after so many points, switch to
that thread (modulo the runnable ones).  In the mode "sync" only lock operations count as points; the mode "monitor" is
"line" by means of sys.monitoring, which costs next to nothing outside the traced files.  When the list is used up, threads only change when they block or end.  The locks
of the code under test are replaced by the ones here, so that blocking is known and a deadlock is found, not waited for."""
import gc
import sys
import threading


class Deadlock(BaseException):
    pass


class Abort(BaseException):
    pass


class Blocked(BaseException):
    """the only thread there is would wait for ever"""


CURRENT = None      # the running Sched
TOOL = 4
REPLACED = {}       # id of a real lock -> (it, the one in its place)


class Sched:
    def __init__(self, schedule, prefixes, mode="line", limit=400000, others=False):
        self.schedule = [list(x) for x in schedule]
        self.prefixes = tuple(prefixes)
        self.mode, self.opcodes = mode, mode == "opcode"
        self.limit = limit
        self.others = others        # a switch always goes to another thread
        self.points = 0
        self.switches = 0
        self.threads = []
        self.cur = None
        self.dead = None
        self.next_at = None

    # -- set up
    def run(self, fns):
        """run the functions to their end; returns their outcomes ("ok", value) or ("error", exception)"""
        global CURRENT
        assert CURRENT is None
        CURRENT = self
        gc.disable()        # no finalizer of another run's objects in the middle of a handover
        self.results = [None] * len(fns)
        self.done = threading.Event()
        for i, f in enumerate(fns):
            t = _Thread(self, i, f)
            self.threads.append(t)
        try:
            if self.mode == "monitor":
                self.monitor()
            for t in self.threads:
                t.thread.start()
            self.advance()
            first = self.pick(None)
            self.cur = first
            first.gate.release()
            while not self.done.wait(0.5):
                pass
            for t in self.threads:
                t.thread.join()
        finally:
            if not self.done.is_set():      # interrupted (case timeout): let every thread die
                self.dead = Abort()
                for t in self.threads:
                    t.gate.release()
                    t.gate.release()
            CURRENT = None
            gc.enable()
            if self.mode == "monitor":
                sys.monitoring.set_events(TOOL, 0)
                sys.monitoring.free_tool_id(TOOL)
        if isinstance(self.dead, Deadlock):
            raise self.dead
        return self.results

    def advance(self):
        if self.schedule:
            n, who = self.schedule.pop(0)
            self.next_at, self.next_who = self.points + n, who
        else:
            self.next_at = None

    def runnable(self):
        return [t for t in self.threads if not t.ended and (t.waiting is None or t.waiting())]

    def pick(self, prefer):
        r = self.runnable()
        if not r:
            return None
        if prefer is not None:
            return r[prefer % len(r)]
        return r[0]

    # -- called by the running thread
    def me(self):
        t = getattr(threading.current_thread(), "sched_thread", None)
        return t if t is not None and t.sched is self else None

    def point(self):
        if self.dead:
            raise Abort()
        self.points += 1
        if self.points > self.limit:
            self.kill(Deadlock("no end after %d steps" % self.limit))
        if self.next_at is not None and self.points >= self.next_at:
            who = self.next_who
            self.advance()
            if self.others:
                r = [t for t in self.runnable() if t is not self.cur]
                if r:
                    self.hand(r[who % len(r)])
            else:
                self.hand(self.pick(who))

    def hand(self, other):
        me = self.me()
        if other is None:
            self.kill(Deadlock("every thread is blocked: " + ", ".join(
                "%d in %s" % (t.index, t.where) for t in self.threads if not t.ended)))
        if other is me:
            return
        self.switches += 1
        self.cur = other
        other.gate.release()
        me.gate.acquire()
        if self.dead:
            raise Abort()

    def kill(self, why):
        self.dead = why
        for t in self.threads:
            if t is not self.me():
                t.gate.release()
        raise Abort()

    def block(self, ready, where):
        """until ready() holds"""
        me = self.me()
        if self.dead:
            raise Abort()
        if ready():
            return
        me.waiting, me.where = ready, where
        try:
            while not ready():
                other = self.pick(None)
                self.hand(other)
        finally:
            me.waiting = None

    def finish(self, t):
        t.ended = True
        if self.dead:
            if all(x.ended for x in self.threads):
                self.done.set()
            return
        if all(x.ended for x in self.threads):
            self.done.set()
            return
        other = self.pick(None)
        if other is None:
            self.dead = Deadlock("the threads left are blocked: " + ", ".join(
                "%d in %s" % (x.index, x.where) for x in self.threads if not x.ended))
            for x in self.threads:
                x.gate.release()
            return
        self.cur = other
        other.gate.release()

    # -- tracing
    def monitor(self):
        self.disable = sys.monitoring.DISABLE
        m = sys.monitoring
        m.use_tool_id(TOOL, "sched")
        m.register_callback(TOOL, m.events.LINE, self.at_line)
        m.set_events(TOOL, m.events.LINE)
        m.restart_events()

    def at_line(self, code, line):
        if not code.co_filename.startswith(self.prefixes):
            return self.disable
        if self.me() is not None and not self.dead:
            self.point()

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefixes):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.point()
        return self.local


class _Thread:
    def __init__(self, sched, index, f):
        self.sched, self.index, self.f = sched, index, f
        self.gate = threading.Semaphore(0)
        self.waiting = None
        self.where = "start"
        self.ended = False
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.sched_thread = self

    def main(self):
        s = self.sched
        self.gate.acquire()
        try:
            if not s.dead:
                if s.mode in ("line", "opcode"):
                    sys.settrace(s.tracer)
                try:
                    s.results[self.index] = ("ok", self.f())
                except (Abort, Deadlock) as e:
                    s.results[self.index] = ("error", e)
                except Exception as e:
                    s.results[self.index] = ("error", e)
                finally:
                    sys.settrace(None)
        finally:
            s.finish(self)


def current():
    s = CURRENT
    return s if s is not None and s.me() is not None else None


class Lock:
    """threading.Lock under a schedule, and when no schedule runs a plain flag of one thread"""
    reentrant = False

    def __init__(self):
        self.owner, self.count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = current()
        me = threading.get_ident()
        if s is not None:
            s.point()
        if self.owner == me and self.reentrant:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if s is None:
                raise Blocked("acquire")
            s.block(lambda: self.owner is None, "acquire")
        self.owner, self.count = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            s = current()
            if s is not None and not s.dead:
                s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class RLock(Lock):
    reentrant = True


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *exc):
        self.lock.release()

    def wait(self, timeout=None):
        s = current()
        if s is None:
            raise Blocked("wait")
        if self.lock.owner != threading.get_ident():
            raise RuntimeError("cannot wait on un-acquired lock")
        token = [False]
        self.waiters.append(token)
        owner, count = self.lock.owner, self.lock.count
        self.lock.owner, self.lock.count = None, 0
        try:
            if timeout is not None:         # may time out at any moment
                s.point()
            else:
                s.block(lambda: token[0], "wait")
        finally:
            if token in self.waiters:
                self.waiters.remove(token)
            if not s.dead:
                s.block(lambda: self.lock.owner is None, "acquire after wait")
            self.lock.owner, self.lock.count = owner, count
        return token[0]

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        if self.lock.owner != threading.get_ident():
            raise RuntimeError("cannot notify on un-acquired lock")
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


def patch(module):
    """replace the locks a module creates, whether imported by name or through the threading module"""
    import types
    kinds = {"Lock": Lock, "RLock": RLock, "Condition": Condition}
    for name, cls in kinds.items():
        for k, v in list(vars(module).items()):
            if v is getattr(threading, name):
                setattr(module, k, cls)
    for k, v in list(vars(module).items()):
        if v is threading:
            shim = types.SimpleNamespace(**{n: getattr(threading, n) for n in dir(threading) if not n.startswith("__")})
            for name, cls in kinds.items():
                setattr(shim, name, cls)
            setattr(module, k, shim)


def replace_locks(module):
    """patch(module), and the locks it already made: in its names, its classes and its own objects"""
    patch(module)
    real = {type(threading.Lock()): Lock, type(threading.RLock()): RLock, threading.Condition: Condition}

    def swap(owner, put):
        for k, v in list(vars(owner).items()):
            if type(v) in real:
                if id(v) not in REPLACED:
                    REPLACED[id(v)] = v, real[type(v)]()
                put(owner, k, REPLACED[id(v)][1])
    swap(module, setattr)
    for v in list(vars(module).values()):
        if isinstance(v, type) and v.__module__ == module.__name__:
            swap(v, setattr)
        elif type(v).__module__ == module.__name__ and hasattr(v, "__dict__"):
            swap(v, setattr)
