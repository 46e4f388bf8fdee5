"""C20: the pool hands out, shares, counts and takes back connections as configured."""
import gc

from hypothesis import strategies as st

from vlib import boot, sched
from vlib.core import Sub, Violation

PROPERTY = "C20"
TECHNIQUE = ("model-based property testing: generated configurations and histories against a model of the pool over a "
             "recording driver, and generated thread schedules run deterministically")
LEVEL_NOTE = ("Histories of one thread are compared step by step with a model; programs of two to four threads run under "
              "generated schedules with a switch possible at every lock operation, every line or every bytecode of the pool, where a blocked end is a deadlock.")
RULE = "a request was refused or blocked at a limit, or a connection was reused, shared or reset"
ASSUMPTIONS = ["the initial number of connections is not above the number allowed",
               "in the threaded programs no thread asks for a connection while holding one"]
BUDGET = {"quick": 40, "thorough": 900}


def setup():
    boot.paths()
    from dbutils import pooled_db
    sched.patch(pooled_db)


class Driver:
    """a DB-API module that keeps count"""
    apilevel, paramstyle = "2.0", "qmark"

    class Error(Exception):
        pass

    class OperationalError(Error):
        pass

    class InterfaceError(Error):
        pass

    class InternalError(Error):
        pass

    def __init__(self, threadsafety=2, watch=None):
        self.threadsafety = threadsafety
        self.cons = []
        self.watch = watch
        self.pings = 0

    def creator(self, c):
        """the driver as users hand it to the pool: the module, or a function of theirs"""
        if c.get("form") != "function" or self.threadsafety != 2:
            return self

        def make(*args, **kwargs):
            return self.connect(*args, **kwargs)
        make.dbapi = self           # the exceptions are given as an option: the steady connection forgets creator.dbapi
        return make

    def connect(self, *args, **kwargs):
        c = Con(self, len(self.cons))
        self.cons.append(c)
        if self.watch:
            self.watch()
        return c

    def open(self):
        return [c for c in self.cons if c.open and c.alive]


class Con:
    def __init__(self, drv, n):
        self.drv, self.n = drv, n
        self.open = self.alive = True
        self.dirty = False
        self.tx = False
        self.closes = 0

    def check(self):
        if not self.open or not self.alive:
            raise self.drv.OperationalError("gone")

    def ping(self):
        self.drv.pings += 1
        self.check()

    def begin(self):
        self.check()
        self.tx = True

    def commit(self):
        self.check()
        self.dirty = self.tx = False

    def rollback(self):
        self.check()
        self.dirty = self.tx = False

    def cursor(self):
        self.check()
        return Cur(self)

    def close(self):
        self.open = False


class Cur:
    def __init__(self, con):
        self.con = con

    def execute(self, sql):
        self.con.check()
        if sql == "write":
            self.con.dirty = True
        return self.con.n

    def close(self):
        pass


# ---- one thread against a model

@st.composite
def config(draw):
    c = {"maxcached": draw(st.sampled_from([0, 0, 1, 2, 3])), "maxshared": draw(st.sampled_from([0, 1, 2, 3])),
         "maxconnections": draw(st.sampled_from([0, 1, 2, 3, 4])), "blocking": draw(st.integers(0, 3)) == 0,
         "reset": draw(st.booleans()), "ping": draw(st.sampled_from([0, 1, 1, 7])),
         "threadsafety": draw(st.sampled_from([1, 2, 2, 2])), "form": draw(st.sampled_from(["module", "function"])),
         "zero": draw(st.sampled_from(["zero", "none", "left out"]))}
    top = max(c["maxconnections"], c["maxcached"], c["maxshared"]) if c["maxconnections"] else 4
    c["mincached"] = draw(st.integers(0, top)) if draw(st.booleans()) else 0
    return c


def options(c):
    names = ("mincached", "maxcached", "maxshared", "maxconnections", "blocking", "reset", "ping")
    opts = {k: c[k] for k in names}
    for k in names[:4]:
        if opts[k] == 0 and c.get("zero") == "none":
            opts[k] = None
        elif opts[k] == 0 and c.get("zero") == "left out":
            del opts[k]
    if c.get("form") == "function":
        opts["failures"] = (Driver.OperationalError, Driver.InterfaceError, Driver.InternalError)
    return opts


@st.composite
def histories(draw):
    c = draw(config())
    n = draw(st.integers(1, 24))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(["get", "get", "get", "get", "dedicated", "use", "write", "begin", "commit", "rollback",
                                  "close", "close", "close", "again", "drop", "with", "kill", "killidle", "poolclose"]))
        if k == "poolclose" and draw(st.integers(0, 3)):
            k = "close"
        ops.append([k, draw(st.integers(0, 7))])
    return {"config": c, "ops": ops}


class Slot:
    """a pooled connection: its raw connection and its borrowers"""

    def __init__(self, raw):
        self.raw = raw
        self.shared = None      # None dedicated, else number of borrowers
        self.tx = False
        self.orphan = False     # the pool was closed meanwhile: no longer shared


def history(case, note):
    from dbutils import pooled_db as P
    c = case["config"]
    drv = Driver(c["threadsafety"])
    opts = options(c)
    pool = P.PooledDB(drv.creator(c), **opts)
    maxshared = c["maxshared"] if c["threadsafety"] > 1 else 0
    maxcached = max(c["maxcached"], c["mincached"]) if c["maxcached"] else 0
    maxcon = max(c["maxconnections"], maxcached, c["maxshared"]) if c["maxconnections"] else 0

    def bad(what):
        raise Violation("%s (config %s)" % (what, {k: v for k, v in c.items()}))

    if len(drv.cons) != c["mincached"] or len(drv.open()) != c["mincached"]:
        bad("%d connections at the start, %d open, expected %d" % (len(drv.cons), len(drv.open()), c["mincached"]))
    idle = list(drv.cons)                   # raw connections waiting
    held = []                               # (proxy, slot)
    closed_pool = False

    def in_use():
        return list({id(s): s for _, s in held}.values())

    def who(p):
        return drv.cons[p.cursor().execute("who")]

    def invariants():
        if maxcon and len(drv.open()) > maxcon:
            bad("%d open connections, %d allowed" % (len(drv.open()), maxcon))
        free = [x for x in drv.open() if all(x is not s.raw for s in in_use())]
        if maxcached and len(free) > maxcached:
            bad("%d idle connections kept, at most %d wanted" % (len(free), maxcached))
        if {x.n for x in free} != {x.n for x in idle if x.open and x.alive}:
            bad("open and not in use: %s; expected idle: %s" % ([x.n for x in free], [x.n for x in idle if x.open]))
        for x in free:
            if x.tx or (c["reset"] and x.dirty):
                bad("connection %d waits in the pool with an open transaction" % x.n)

    def give_back(slot):
        note.count("returned")
        raw = slot.raw
        if maxcached and len(idle) >= maxcached:
            if raw.open:
                bad("connection %d is not closed although %d are idle already" % (raw.n, len(idle)))
            note.nontrivial()
        else:
            idle.append(raw)
            if not closed_pool and raw.alive and not raw.open:
                bad("connection %d was closed instead of kept" % raw.n)

    def request(shareable):
        nonlocal idle
        use = in_use()
        sharing = [s for s in use if s.shared is not None and not s.orphan]
        room = not maxcon or len(use) < maxcon
        expect = None
        if shareable and maxshared:
            if len(sharing) < maxshared and room:
                expect = "new"
            else:
                free = [s for s in sharing if not s.tx]
                if free:
                    expect = "share"
        elif room:
            expect = "new"
        before, pings = len(drv.cons), drv.pings
        try:
            p = pool.connection(shareable) if shareable else pool.dedicated_connection()
        except P.TooManyConnections:
            if expect:
                bad("a request was refused with %d of %s connections in use, %d of %d shared" %
                    (len(use), maxcon or "unlimited", len(sharing), maxshared))
            if c["blocking"]:
                bad("a blocking pool refused a request")
            note.nontrivial()
            note.label("refused")
            return
        except sched.Blocked:
            if expect:
                bad("a request waits with %d of %s connections in use, %d of %d shared" %
                    (len(use), maxcon or "unlimited", len(sharing), maxshared))
            if not c["blocking"]:
                bad("a pool that does not block waits")
            note.nontrivial()
            note.label("blocks")
            return
        if not expect:
            bad("a request was granted with %d of %s connections in use, %d of %d shared" %
                (len(use), maxcon or "unlimited", len(sharing), maxshared))
        made = len(drv.cons) - before
        if c["ping"] & 1 and drv.pings == pings and (expect == "share" or idle):
            bad("a connection was handed out again without the ping that was asked for")
        if not c["ping"] and drv.pings != pings:
            bad("a connection was pinged although pings are switched off")
        raw = who(p)
        if expect == "share":
            match = [s for s in sharing if s.raw is raw]
            if not match:
                match = [s for s in free if not s.raw.alive or not s.raw.open]     # replaced by the steady connection
                if not match or raw.n < before:
                    bad("a shared request got connection %d, shared are %s" % (raw.n, [s.raw.n for s in sharing]))
            elif match[0].tx:
                bad("a shared request got connection %d, which is in a transaction" % raw.n)
            elif len(match) == 1 and match[0].shared > min(s.shared for s in free):
                bad("a shared request got connection %d with %d borrowers, others have fewer" % (raw.n, match[0].shared))
            if len(match) > 1:              # which of the dead connections was it?  their borrowers can tell
                for other in match:
                    other.raw = who(next(q for q, x in held if x is other))
                match = [x for x in match if x.raw is raw]
                if not match:
                    bad("connection %d is shared with no other borrower" % raw.n)
                if match[0].shared > min(x.shared for x in free):
                    bad("a shared request got connection %d with %d borrowers, others have fewer" % (raw.n, match[0].shared))
            s = match[0]
            s.raw = raw
            s.shared += 1
            note.nontrivial()
            note.label("shared")
        else:
            if any(s.raw is raw for s in use):
                bad("connection %d is handed out twice" % raw.n)
            if idle:
                match = [x for x in idle if x is raw]
                if match:
                    if made:
                        bad("%d connections opened although an idle one was taken" % made)
                else:
                    match = [x for x in idle if not x.alive or not x.open]
                    if not match:
                        bad("connection %d opened although %s are idle" % (raw.n, [x.n for x in idle]))
                idle = [x for x in idle if x is not match[0]]
                note.nontrivial()
                note.label("reused")
            elif made != 1:
                bad("%d connections opened for one request" % made)
            s = Slot(raw)
            if shareable and maxshared:
                s.shared = 1
        held.append((p, s))

    for k, i in case["ops"]:
        if k in ("get", "dedicated"):
            request(k == "get")
        elif k == "poolclose":
            pool.close()
            closed_pool = True
            for x in idle:
                if x.open:
                    bad("connection %d is open after the pool was closed" % x.n)
            idle = []
            for s in in_use():
                if s.orphan:
                    pass        # reopened by its borrower after the pool was closed
                elif s.shared is not None:
                    if s.raw.open:
                        bad("shared connection %d is open after the pool was closed" % s.raw.n)
                    s.orphan = True
                    s.tx = False
                elif s.raw.alive and not s.raw.open:
                    bad("the pool closed connection %d, which is in use" % s.raw.n)
        elif k == "killidle":
            if idle:
                idle[i % len(idle)].alive = False
        elif not held:
            continue
        else:
            p, s = held[i % len(held)]
            if k == "kill":
                if not s.tx:
                    s.raw.alive = False
            elif k in ("use", "write"):
                raw = drv.cons[p.cursor().execute(k)]
                if raw is not s.raw:
                    if s.raw.alive and s.raw.open:
                        bad("the borrower of connection %d now uses %d" % (s.raw.n, raw.n))
                    if any(x.raw is raw for x in in_use()):
                        bad("connection %d serves two borrowers" % raw.n)
                    s.raw = raw
                if k == "write" and s.raw is not raw:
                    bad("written elsewhere")
            elif k == "begin":
                if s.raw.alive and s.raw.open:
                    p.begin()
                    s.tx = True
            elif k in ("commit", "rollback"):
                if s.raw.alive and s.raw.open:
                    getattr(p, k)()
                    s.tx = False
                    if s.raw.tx or s.raw.dirty:
                        bad("%s did not reach connection %d" % (k, s.raw.n))
            elif k in ("close", "again", "drop", "with"):
                held = [x for x in held if x[0] is not p]
                tx = s.tx
                if k == "drop":
                    del p
                    gc.collect(0)
                elif k == "with":
                    with p:
                        pass
                else:
                    p.close()
                if k == "again":
                    p.close()
                    for f in (lambda: p.cursor(), lambda: p.begin(), lambda: p.commit()):
                        try:
                            f()
                        except P.InvalidConnection:
                            continue
                        bad("a connection given back can still be used")
                if s.shared is not None:
                    s.shared -= 1
                if not s.shared:
                    # a connection that died without notice may be replaced when it is rolled back
                    if not (s.raw.alive and s.raw.open):
                        fresh = [x for x in drv.open() if all(x is not y.raw for y in in_use()) and x not in idle]
                        if len(fresh) > 1:
                            bad("%d connections opened to replace one" % len(fresh))
                        if fresh:
                            s.raw = fresh[0]
                    if tx:
                        note.nontrivial()
                        note.label("rolled back")
                    give_back(s)
        invariants()
    for p, s in held:
        p.close()
    pool.close()
    if drv.open():
        bad("connections %s are open after everything was returned and the pool closed" % [x.n for x in drv.open()])


# ---- several threads

@st.composite
def programs(draw):
    c = draw(config())
    c["ping"] = draw(st.sampled_from([0, 1]))
    c["blocking"] = True
    threads = []
    for _ in range(draw(st.integers(2, 4))):
        prog = []
        for _ in range(draw(st.integers(1, 3))):
            prog.append([draw(st.sampled_from(["get", "get", "dedicated"])), draw(st.sampled_from([0, 0, 1, 2])),
                         draw(st.sampled_from(["close", "close", "drop", "with"]))])
        threads.append(prog)
    mode = draw(st.sampled_from(["sync", "sync", "line", "opcode"]))
    span = {"sync": 4, "line": draw(st.sampled_from([3, 12, 40])), "opcode": draw(st.sampled_from([18, 72, 240]))}[mode]
    schedule = draw(st.lists(st.tuples(st.integers(1, span), st.integers(0, 3)), max_size=24))
    return {"config": c, "threads": threads, "schedule": [list(x) for x in schedule], "mode": mode}


def threaded(case, note):
    from dbutils import pooled_db as P
    c = case["config"]
    maxshared = c["maxshared"] if c["threadsafety"] > 1 else 0
    maxcached = max(c["maxcached"], c["mincached"]) if c["maxcached"] else 0
    maxcon = max(c["maxconnections"], maxcached, c["maxshared"]) if c["maxconnections"] else 0
    found = []

    def bad(what):
        if not found:
            found.append("%s (config %s)" % (what, c))
        raise sched.Abort()

    def watch():
        if maxcon and len(drv.open()) > maxcon:
            bad("%d open connections, %d allowed" % (len(drv.open()), maxcon))

    drv = Driver(c["threadsafety"], watch)
    opts = options(c)
    pool = P.PooledDB(drv.creator(c), **opts)
    s = sched.Sched(case["schedule"], (boot.REPO + "/dbutils/pooled_db.py",), mode=case["mode"])
    holders = {}            # raw number -> {thread: shared?}
    in_tx = {}              # raw number -> serial of the begin
    clock = [0]

    def body(t, prog):
        def f():
            for kind, mode, end in prog:
                clock[0] += 1
                asked = clock[0]
                p = pool.connection() if kind == "get" else pool.dedicated_connection()
                raw = p.cursor().execute("who")
                shared = kind == "get" and bool(maxshared)
                mine = holders.setdefault(raw, {})
                for o, osh in mine.items():
                    if not (shared and osh):
                        bad("connection %d is held by threads %d and %d" % (raw, o, t))
                    note.nontrivial()
                    note.label("shared")
                mine[t] = shared
                if raw in in_tx and in_tx[raw] < asked:
                    bad("connection %d was handed out during a transaction on it" % raw)
                if maxcon and len([x for x in holders.values() if x]) > maxcon:
                    bad("more than %d connections in use" % maxcon)
                if len([x for x in holders.values() if True in x.values()]) > maxshared:
                    bad("more than %d connections shared" % maxshared)
                s.point()
                if mode and not (shared and raw in in_tx):
                    p.begin()
                    clock[0] += 1
                    in_tx[raw] = clock[0]
                    p.cursor().execute("write")
                    s.point()
                    if mode == 1:
                        in_tx.pop(raw, None)
                        p.commit()
                if mine.get(t) is None:
                    bad("lost")
                del mine[t]
                if not mine:
                    in_tx.pop(raw, None)
                if end == "close":
                    p.close()
                elif end == "with":
                    with p:
                        pass
                del p
        return f

    try:
        out = s.run([body(i, prog) for i, prog in enumerate(case["threads"])])
    except sched.Deadlock as e:
        raise Violation("deadlock: %s (config %s)" % (e, c))
    if found:
        raise Violation(found[0])
    for i, (k, v) in enumerate(out):
        if k == "error":
            raise Violation("thread %d: %s: %s (config %s)" % (i, type(v).__name__, v, c))
    note.count("switches", s.switches)
    if s.switches > 2:
        note.nontrivial()
    left = drv.open()
    if maxcached and len(left) > maxcached:
        raise Violation("%d idle connections kept, at most %d wanted (config %s)" % (len(left), maxcached, c))
    for x in left:
        if x.tx or (c["reset"] and x.dirty):
            raise Violation("connection %d waits in the pool with an open transaction (config %s)" % (x.n, c))
    again = []          # everything can be borrowed again
    try:
        for _ in range(maxcon or 3):
            again.append(pool.dedicated_connection())
    except (P.TooManyConnections, sched.Blocked):
        raise Violation("only %d of %d connections can be had after all were returned (config %s)" % (
            len(again), maxcon, c))
    ids = [p.cursor().execute("who") for p in again]
    if len(set(ids)) != len(ids):
        raise Violation("after all were returned, connections %s were handed out (config %s)" % (ids, c))


SUBS = [
    Sub("history", histories, history, quick=4000, thorough=200000, shards=(2, 8), setup=setup),
    Sub("threads", programs, threaded, quick=3000, thorough=60000, shards=(4, 8), setup=setup),
]
