"""C21: a hardened connection survives losses and never hides one that cost work."""
from hypothesis import strategies as st

from vlib import boot
from vlib.core import Sub, Violation

PROPERTY = "C21"
TECHNIQUE = ("model-based property testing: generated configurations, histories and faults on a recording driver, compared "
             "call by call with a model of what the caller may see and of what must reach the server")
LEVEL_NOTE = ("Faults: the server drops the connection between any two calls, in the middle of a call before it takes effect, "
              "refuses new connections for a while, or answers a statement with an error, of the failure classes or not.")
RULE = "a fault was in force during an operation or a usage limit was reached"
ASSUMPTIONS = ["a loss strikes before the statement takes effect on the server",
               "begin() on a lost connection is not part of the promise of reopening (it reports the loss)"]
BUDGET = {"quick": 40, "thorough": 900}


def setup():
    boot.paths()


class Server:
    """what has reached the server"""

    def __init__(self):
        self.down = 0           # refuse so many connects
        self.connects = 0
        self.done = []          # (connection, statement)
        self.fail = None        # error class name for the next executions of the marked statement
        self.cut = 0            # drop the connection in the middle of the next so many executions


def driver(server, cfg):
    class Error(Exception):
        pass

    class OperationalError(Error):
        pass

    class InterfaceError(Error):
        pass

    class InternalError(Error):
        pass

    class ProgrammingError(Error):
        pass

    class Con:
        def __init__(self):
            self.n = server.connects - 1
            self.open = self.alive = True
            self.pending = []
            self.calls = 0
            self.begun = False

        def check(self):
            if not self.open:
                raise (OperationalError if cfg["failures"] == "one" else InterfaceError)("closed")
            if not self.alive:
                raise OperationalError("lost")

        def cursor(self, *a, **k):
            self.check()
            return Cur(self, a, k)

        def commit(self):
            self.check()
            server.done.extend(("commit", self.n) for _ in [0])
            self.pending = []
            self.begun = False

        def rollback(self):
            self.check()
            server.done.append(("rollback", self.n))
            self.pending = []
            self.begun = False

        def close(self):
            self.open = False

        if cfg["has_ping"]:
            def ping(self, *a):
                server.pings = getattr(server, "pings", 0) + 1
                if cfg["has_ping"] == "flag" and not a:
                    raise TypeError("reconnect flag wanted")
                if cfg["has_ping"] == "plain" and a:
                    raise TypeError("no arguments")
                if cfg["has_ping"] == "bool":
                    return self.open and self.alive
                self.check()
        if cfg["has_begin"]:
            def begin(self, *a):
                self.check()
                server.done.append(("begin", self.n))
                self.begun = True

    class Cur:
        def __init__(self, con, a, k):
            self.con, self.a, self.k = con, a, k
            self.open = True
            self.rows = None
            self.sizes = []
            con.curs = getattr(con, "curs", []) + [self]

        def check(self):
            if not self.open:
                raise (OperationalError if cfg["failures"] == "one" else InterfaceError)("cursor closed")
            self.con.check()

        def setinputsizes(self, sizes):
            self.check()
            self.sizes.append(("in", tuple(sizes)))

        def setoutputsize(self, size, column=None):
            self.check()
            self.sizes.append(("out", column, size))

        def execute(self, sql, *params):
            self.check()
            if server.cut and not sql.startswith("set"):
                server.cut -= 1
                self.con.alive = False
                self.con.check()
            if server.fail and sql.startswith("bad"):
                raise {"OperationalError": OperationalError, "ProgrammingError": ProgrammingError,
                       "InternalError": InternalError, "ValueError": ValueError}[server.fail](sql)
            server.done.append((sql, self.con.n) + ((tuple(sorted(set(map(str, self.sizes)))),) if self.sizes else ()))
            self.sizes = []
            self.rows = [(sql, self.con.n)]
            return sql

        def executemany(self, sql, params):
            return self.execute(sql)

        def callproc(self, name, *args):
            return self.execute(name)

        def fetchone(self):
            self.check()
            return self.rows.pop() if self.rows else None

        def fetchall(self):
            self.check()
            r, self.rows = self.rows or [], []
            return r

        def close(self):
            self.open = False

    class Module:
        threadsafety = 2
        cons = []

        @staticmethod
        def connect(*a, **k):
            if (a, k) != (("host",), {"user": "u"}):
                raise Violation("connection arguments %r %r" % (a, k))
            if server.down:
                server.down -= 1
                raise OperationalError("refused")
            server.connects += 1
            c = Con()
            Module.cons.append(c)
            return c
    for e in (Error, OperationalError, InterfaceError, InternalError, ProgrammingError):
        setattr(Module, e.__name__, e)
        setattr(Con, e.__name__, e)
    Module.Con = Con
    return Module


@st.composite
def histories(draw):
    cfg = {"maxusage": draw(st.sampled_from([0, 0, None, 1, 2, 3, 5])), "setsession": draw(st.sampled_from([None, [], ["set a"], ["set a", "set b"]])),
           "failures": draw(st.sampled_from([None, None, "one", "tuple"])), "ping": draw(st.integers(0, 7)),
           "closeable": draw(st.booleans()), "has_ping": draw(st.sampled_from(["", "flag", "plain", "bool", "opt"])),
           "has_begin": draw(st.booleans()), "via": draw(st.sampled_from(["module", "function"]))}
    n = draw(st.integers(1, 20))
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(["exec", "exec", "exec", "exec", "newcur", "newcur", "many", "call", "fetch", "begin", "begin",
                                  "commit", "rollback", "close", "pingcheck", "with", "withfail", "kill", "kill", "down", "cut", "bad",
                                  "badnext", "sizes", "curclose", "cancel"]))
        ops.append([k, draw(st.integers(0, 3)), draw(st.sampled_from(["OperationalError", "ProgrammingError", "InternalError",
                                                                      "ValueError"])) if k in ("bad", "badnext") else None])
    return {"config": cfg, "ops": ops}


def history(case, note):
    from dbutils import steady_db as S
    cfg = case["config"]
    server = Server()
    M = driver(server, cfg)
    kw = {"maxusage": cfg["maxusage"], "setsession": cfg["setsession"], "ping": cfg["ping"], "closeable": cfg["closeable"]}
    if cfg["failures"]:
        kw["failures"] = M.OperationalError if cfg["failures"] == "one" else (M.OperationalError, M.InterfaceError)
    failing = {None: (M.OperationalError, M.InterfaceError, M.InternalError), "one": (M.OperationalError,),
               "tuple": (M.OperationalError, M.InterfaceError)}[cfg["failures"]]
    creator = M
    if cfg["via"] == "function":
        def creator(*a, **k):
            return M.connect(*a, **k)
        creator.threadsafety = 2

    def bad(what):
        raise Violation("%s (config %s)" % (what, cfg))

    def args(creator, maxusage=None, setsession=None, failures=None, ping=1, closeable=True):
        return S.connect(creator, maxusage, setsession, failures, ping, closeable, "host", user="u")

    con = args(creator, **kw)
    session = list(cfg["setsession"] or [])
    maxusage = cfg["maxusage"] or 0
    if server.connects != 1:
        bad("%d connections opened" % server.connects)

    def prepared():
        """every connection got the session setup before anything else"""
        for c in M.cons:
            mine = [x[0] for x in server.done if x[1] == c.n]
            if mine[:len(session)] != session or [x for x in mine if x in session] != session:
                bad("connection %d was set up with %s, the setup is %s" % (c.n, mine[:4], session))

    def live():
        return [c for c in M.cons if c.open and c.alive]

    tx = False          # in a transaction, as the caller knows
    curs = []
    serial = [0]
    used = 0            # executions on the current connection
    tried = {}          # executions and attempts, by connection
    sizes = {}
    closed = False

    held_con = [M.cons[0]]

    def current():
        """the connection in use: the live one, or the one that was last"""
        if live():
            held_con[0] = live()[-1]
        return held_con[0]

    def lost():
        return not (current().open and current().alive)

    for k, i, err in case["ops"]:
        before = server.connects
        mark = len(server.done)
        if k == "kill":
            # the server drops every connection
            for c in M.cons:
                c.alive = False
            continue
        if k == "down":
            server.down = i
            continue
        if k == "cut":
            server.cut = i
            continue
        if k == "cancel":
            con.cancel()
            # like the end of a transaction for the hardened connection
            tx = False
            continue
        if k == "newcur":
            fault = lost() or (maxusage and max(used, tried.get(current().n, 0)) >= maxusage and not tx)
            can = not server.down
            try:
                c = con.cursor()
            except failing as e:
                if not fault:
                    bad("cursor() failed on a healthy connection: %r" % e)
                if not tx and can:
                    bad("cursor() failed although the connection could be reopened: %r" % e)
                if tx:
                    tx = None       # the caller was told: the transaction is over
            except Violation:
                raise
            except Exception as e:
                if not (lost() and not isinstance(e, failing) and isinstance(e, M.InterfaceError)):
                    bad("cursor() raised %r" % e)
                if tx:
                    tx = None
            else:
                if tx and fault and lost():
                    bad("cursor() hid the loss of the connection in a transaction")
                curs.append(c)
            if fault:
                note.nontrivial()
            elif server.connects != before and not (maxusage and tried.get(current().n, 0) >= maxusage):
                bad("a healthy connection was reopened by cursor()")
        elif k in ("exec", "many", "call", "bad", "badnext"):
            if not curs:
                continue
            cur = curs[i % len(curs)]
            serial[0] += 1
            sql = "%s %d" % ("bad" if k in ("bad", "badnext") else "do", serial[0])
            server.fail = err
            cut = server.cut
            stale = not (cur._cursor.open and cur._cursor.con.open)
            fault = lost() or stale or (maxusage and max(used, tried.get(current().n, 0)) >= maxusage and not tx) or cut
            # a failed attempt may count as use of the connection
            plain = not fault and not server.down and not (maxusage and tried.get(current().n, 0) >= maxusage)
            # every reopening needed is possible
            can = not server.down and not cut
            want = None
            if k in ("bad", "badnext"):
                want = {"OperationalError": M.OperationalError, "ProgrammingError": M.ProgrammingError,
                        "InternalError": M.InternalError, "ValueError": ValueError}[err]
            in_tx = tx
            held = current()
            try:
                if k == "many":
                    r = cur.executemany(sql, [(1,)])
                elif k == "call":
                    r = cur.callproc(sql)
                else:
                    r = cur.execute(sql)
            except Violation:
                raise
            except Exception as e:
                if want and isinstance(e, want) and str(e) == sql:
                    note.label("statement error")
                elif not fault:
                    bad("%s on a healthy connection raised %r" % (k, e))
                elif not in_tx and can and not want:
                    bad("%s raised %r although the connection could be reopened" % (k, e))
                elif not isinstance(e, (M.OperationalError, M.InterfaceError, M.InternalError)):
                    bad("%s raised %r" % (k, e))
                if any(x[0] == sql for x in server.done[mark:]):
                    bad("an error was reported for a statement the server carried out")
                if in_tx:
                    if lost() or current() is not held:
                        tx = None
            else:
                if want:
                    bad("the error of a statement was swallowed")
                ran = [x for x in server.done[mark:] if x[0] == sql]
                if maxusage and not in_tx and sum(1 for x in server.done if x[1] == ran[0][1] and x[0].startswith("do")) > maxusage:
                    bad("connection %d used more than %d times" % (ran[0][1], maxusage))
                if len(ran) != 1:
                    bad("a statement was carried out %d times" % len(ran))
                if r != sql:
                    bad("the result of a statement is %r" % (r,))
                if in_tx and ran[0][1] != held.n:
                    bad("a statement of a transaction was carried out on another connection")
                if in_tx and (lost() or current() is not held):
                    bad("a loss within a transaction was hidden")
                expect = tuple(sorted(sizes.get(id(cur), {}).values()))
                if k != "call" and (ran[0][2] if len(ran[0]) > 2 else ()) != expect:
                    bad("input and output sizes %s, expected %s" % (ran[0][2:], expect))
                row = cur.fetchone() if i % 2 else None
                if row is not None and row != (sql, ran[0][1]):
                    bad("fetched %r after %r" % (row, sql))
                if k != "call":
                    sizes.pop(id(cur), None)
            if fault:
                note.nontrivial()
            new = server.connects - before
            if plain and not want and new:
                bad("a healthy connection was reopened")
            if plain and want and want not in failing and new:
                bad("an error of a statement made the connection reopen")
            if new > 2:
                bad("%d connections opened for one statement" % new)
            server.fail = None
            tried[current().n] = tried.get(current().n, 0) + 1
        elif k == "sizes":
            if curs:
                cur = curs[i % len(curs)]
                d = sizes.setdefault(id(cur), {})
                if i % 2:
                    cur.setinputsizes([i])
                    d["in"] = str(("in", (i,)))
                else:
                    cur.setoutputsize(i + 10, None if i else 2)
                    d["out%d" % i] = str(("out", None if i else 2, i + 10))
                    if i:
                        d.pop("out0", None) if False else None
        elif k == "fetch":
            if curs:
                cur = curs[i % len(curs)]
                try:
                    cur.fetchall()
                except (M.OperationalError, M.InterfaceError):
                    if cur._cursor.open and cur._cursor.con.open and cur._cursor.con.alive:
                        bad("fetching failed on a healthy connection")
                if server.connects != before:
                    bad("fetching reopened the connection")
        elif k == "curclose":
            if curs:
                cur = curs.pop(i % len(curs))
                cur.close()
                cur.close()
        elif k == "begin" and current().open:
            try:
                con.begin()
            except (M.OperationalError, M.InterfaceError):
                if not lost():
                    bad("begin() failed on a healthy connection")
                con.cancel()
                tx = False
            else:
                tx = True
                if lost() and cfg["has_begin"]:
                    bad("begin() hid the loss of the connection")
                if cfg["has_begin"] and server.done[mark:] != [("begin", current().n)]:
                    bad("begin() did not reach the server")
            if server.connects != before:
                bad("begin() reopened the connection")
        elif k in ("commit", "rollback", "with", "withfail"):
            gone = lost()
            name = {"with": "commit", "withfail": "rollback"}.get(k, k)
            can = not server.down
            try:
                if k == "with":
                    with con:
                        pass
                elif k == "withfail":
                    try:
                        with con:
                            raise KeyError("mine")
                    except KeyError:
                        pass
                else:
                    getattr(con, k)()
            except (M.OperationalError, M.InterfaceError) as e:
                if not gone:
                    bad("%s failed on a healthy connection: %r" % (k, e))
                if can and lost() and isinstance(e, failing):
                    bad("the connection was not reopened after %s failed" % k)
                note.nontrivial()
            else:
                if gone:
                    bad("%s on a lost connection succeeded" % k)
                if server.done[mark:] != [(name, current().n)]:
                    bad("%s: the server got %s" % (k, server.done[mark:]))
            if not gone and server.connects != before:
                bad("%s reopened a healthy connection" % k)
            tx = False
        elif k == "close":
            held = current()
            was = held.open and held.alive
            con.close()
            con.close()
            if cfg["closeable"]:
                if held.open:
                    bad("close() left the connection open")
                if any(c.open and c.alive for c in M.cons):
                    bad("close() left connections open")
            else:
                if was and not held.open:
                    bad("close() closed a connection that is not to be closed")
                if was and tx and server.done[mark:] != [("rollback", held.n)]:
                    bad("close() of a connection in a transaction did not roll it back")
            tx = False
        elif k == "pingcheck":
            gone = lost()
            can = not server.down
            alive = con._ping_check()
            pings = cfg["has_ping"] and cfg["ping"] & 1
            if pings:
                if not gone and not alive:
                    bad("a healthy connection was found dead")
                if gone and not tx and can and lost():
                    bad("the ping did not reopen the connection")
                if gone and tx is True and server.connects != before:
                    bad("the ping reopened the connection during a transaction")
            if (not gone or not pings) and server.connects != before:
                bad("the ping reopened the connection without need")
        # one connection at a time, the last one opened
        if len(live()) > 1:
            bad("%d connections open after %s" % (len(live()), k))
        if tx is None:
            # whether the hardened connection still counts as in a transaction is its own affair: end it
            try:
                con.rollback()
            except (M.OperationalError, M.InterfaceError):
                pass
            tx = False
        prepared()
        used = sum(1 for x in server.done if x[1] == current().n and x[0] not in session and
                   x[0] not in ("begin", "commit", "rollback"))


SUBS = [
    Sub("history", histories, history, quick=8000, thorough=400000, shards=(4, 8), setup=setup),
]
