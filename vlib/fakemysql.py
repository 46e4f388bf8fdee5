"""A stand-in for the MySQL server and the mysql.connector driver.

`install()` replaces mysql.connector.connect, so the code under test talks to
FakeServer objects (vlib.minisql engines) instead of the network.  Every
statement received is recorded in server.log.  Connections obey the driver
behaviours that matter here: autocommit off, rollback on close, DDL commits,
unread results block the next statement, a killed connection raises
OperationalError, wrong credentials raise ProgrammingError 1045.
"""
import datetime
import decimal
import threading

import mysql.connector
from mysql.connector import errors as E

from . import minisql, sched

SERVERS = {}
LOCK = threading.RLock()

ERR = {1064: E.ProgrammingError, 1146: E.ProgrammingError, 1054: E.ProgrammingError, 1052: E.IntegrityError,
       1048: E.IntegrityError, 1062: E.IntegrityError, 1451: E.IntegrityError, 1452: E.IntegrityError,
       1264: E.DataError, 1406: E.DataError, 1136: E.DataError, 1366: E.DatabaseError, 1364: E.DatabaseError,
       1265: E.DataError, 1050: E.ProgrammingError, 1051: E.ProgrammingError, 1068: E.ProgrammingError,
       1091: E.ProgrammingError, 1305: E.ProgrammingError, 1066: E.ProgrammingError, 1060: E.ProgrammingError}


class FakeServer:
    def __init__(self, host="127.0.0.1", port=3306):
        self.host, self.port = host, int(port)
        self.databases = {}
        self.users = {}                 # user -> (password, set(dbs) | None)
        self.log = []                   # (connection id, database, user, sql)
        self.conns = []
        self.next_id = 1
        self.faults = []                # callables(conn, sql) -> exception | None
        self.commit_faults = []         # callables(conn) -> exception | None

    def add_db(self, name):
        self.databases[name] = minisql.Database()
        return self.databases[name]

    def add_user(self, user, password, dbs=None):
        self.users[user] = (password, None if dbs is None else set(dbs))

    def kill_all(self, dbs=None):
        """the server restarts / an idle timeout fires: every open connection is gone"""
        for c in self.conns:
            if not c.closed and (dbs is None or c.dbname in dbs):
                c.session.rollback()
                c.dead = True
                c.unread = False

    def open_count(self):
        return sum(1 for c in self.conns if not c.closed and not c.dead)

    def clear_log(self):
        self.log = []

    def session(self, dbname):
        return minisql.Session(self.databases[dbname])


def register(server):
    SERVERS[(server.host, server.port)] = server
    return server


def reset():
    for s in SERVERS.values():
        for c in s.conns:
            c.closed = True
    SERVERS.clear()


def connect(*args, **kw):
    host = kw.get("host", "127.0.0.1")
    port = int(kw.get("port", 3306))
    user = kw.get("user") or kw.get("username")
    password = next((kw[k] for k in ("password", "passwd") if kw.get(k) is not None), "")
    db = kw.get("database") or kw.get("db")
    for k in kw:
        if k not in ("host", "port", "user", "username", "password", "passwd", "database", "db", "autocommit",
                     "charset", "use_unicode", "connection_timeout", "buffered", "auth_plugin"):
            raise AttributeError("Unsupported argument '%s'" % k)
    with LOCK:
        srv = SERVERS.get((host, port))
        if srv is None:
            raise E.InterfaceError(errno=2003, msg="Can't connect to MySQL server on '%s:%s'" % (host, port))
        cred = srv.users.get(user)
        if cred is None or cred[0] != password:
            raise E.ProgrammingError(errno=1045, msg="Access denied for user '%s'" % user)
        if db is not None:
            if cred[1] is not None and db not in cred[1]:
                raise E.ProgrammingError(errno=1044, msg="Access denied for user '%s' to database '%s'" % (user, db))
            if db not in srv.databases:
                raise E.ProgrammingError(errno=1049, msg="Unknown database '%s'" % db)
        c = FakeConnection(srv, db, user, kw)
        srv.conns.append(c)
        return c


class Use:
    """a call of the driver on a connection: under a schedule other threads may run in the middle of it, and must not
    use the same connection then"""

    def __init__(self, conn):
        self.conn = conn

    def __enter__(self):
        me, c = threading.get_ident(), self.conn
        if c.user_thread not in (None, me):
            raise E.InterfaceError("the connection is used by two threads at the same time")
        self.outer, c.user_thread = c.user_thread, me
        s = sched.current()
        if s is not None and self.outer is None:
            try:
                s.point()
            except BaseException:
                c.user_thread = self.outer
                raise
        LOCK.acquire()

    def __exit__(self, *exc):
        LOCK.release()
        self.conn.user_thread = self.outer


class FakeConnection:
    user_thread = None

    def __init__(self, server, dbname, user, kw):
        self.server, self.dbname, self.user, self.kw = server, dbname, user, kw
        self.id = server.next_id
        server.next_id += 1
        self.session = minisql.Session(server.databases[dbname] if dbname else minisql.Database())
        self.autocommit = bool(kw.get("autocommit", False))
        self.closed = False
        self.dead = False
        self.unread = False

    # -- driver API
    def _alive(self):
        if self.closed:
            raise E.OperationalError(errno=2055, msg="MySQL Connection not available.")
        if self.dead:
            raise E.OperationalError(errno=2013, msg="Lost connection to MySQL server during query")

    def is_connected(self):
        return not self.closed and not self.dead

    def ping(self, reconnect=False, attempts=1, delay=0):
        with Use(self):
            if self.is_connected():
                return
            if reconnect:
                self.reconnect()
                return
            raise E.InterfaceError(errno=2055, msg="MySQL Connection not available.")

    def reconnect(self, attempts=1, delay=0):
        self.session = minisql.Session(self.server.databases[self.dbname])
        self.closed = self.dead = self.unread = False

    def cursor(self, *a, **kw):
        self._alive()
        if self.unread:
            raise E.InternalError("Unread result found")
        return FakeCursor(self, bool(kw.get("buffered", False) or self.kw.get("buffered")))

    def commit(self):
        with Use(self):
            self._alive()
            if self.unread:
                raise E.InternalError("Unread result found")
            for f in list(self.server.commit_faults):
                exc = f(self)
                if exc is not None:
                    raise exc
            self.session.commit()

    def rollback(self):
        with Use(self):
            self._alive()
            if self.unread:
                raise E.InternalError("Unread result found")
            self.session.rollback()

    def close(self):
        with LOCK:
            if not self.closed and not self.dead:
                self.session.rollback()
            self.closed = True

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass


def moment(v):
    """a date or time as the driver returns it"""
    try:
        return datetime.date.fromisoformat(v) if len(v) == 10 else datetime.datetime.fromisoformat(v)
    except ValueError:
        return str(v)


def literal(v):
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, (int, decimal.Decimal)):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, bytes):
        v = v.decode("utf8")
    if isinstance(v, (datetime.date, datetime.datetime)):
        v = str(v)
    if isinstance(v, str):
        return "'" + v.replace("\\", "\\\\").replace("'", "\\'").replace("\0", "\\0").replace("\n", "\\n") + "'"
    raise E.ProgrammingError("Python '%s' cannot be converted to a MySQL type" % type(v).__name__.lower())


class FakeCursor:
    arraysize = 1

    def __init__(self, conn, buffered):
        self.conn, self.buffered = conn, buffered
        self.rows = None
        self.description = None
        self.rowcount = -1
        self.lastrowid = 0
        self.closed = False

    def execute(self, sql, params=None, multi=False):
        with Use(self.conn):
            if self.closed:
                raise E.ProgrammingError(errno=2055, msg="Cursor is not connected")
            c = self.conn
            c._alive()
            if c.unread:
                raise E.InternalError("Unread result found")
            if isinstance(sql, (bytes, bytearray)):
                sql = sql.decode("utf8")
            if params is not None and params != ():
                if isinstance(params, dict):
                    for k, v in params.items():
                        sql = sql.replace("%%(%s)s" % k, literal(v))
                else:
                    parts = sql.split("%s")
                    if len(parts) - 1 != len(params):
                        raise E.ProgrammingError("Not all parameters were used in the SQL statement")
                    out = parts[0]
                    for p, rest in zip(params, parts[1:]):
                        out += literal(p) + rest
                    sql = out
            c.server.log.append((c.id, c.dbname, c.user, sql))
            for f in list(c.server.faults):
                exc = f(c, sql)
                if exc is not None:
                    raise exc
            try:
                cols, rows, n = c.session.execute(sql)
            except minisql.SqlError as e:
                raise ERR.get(e.errno, E.DatabaseError)(errno=e.errno, msg=e.msg)
            if c.autocommit:
                c.session.commit()
            self.rowcount = n
            if cols is None:
                self.rows, self.description = None, None
            else:
                self.rows = [tuple(moment(v) if type(v) is minisql.Moment else v for v in r) for r in rows]
                self.description = [(x, None, None, None, None, None, 1, 0) for x in cols]
                if not self.buffered:
                    c.unread = bool(self.rows)

    def executemany(self, sql, seq):
        n = 0
        for p in seq:
            self.execute(sql, p)
            n += max(0, self.rowcount)
        self.rowcount = n

    def _need(self):
        if self.rows is None:
            raise E.InterfaceError("No result set to fetch from.")

    def fetchall(self):
        with Use(self.conn):
            self._need()
            r, self.rows = self.rows, []
            if not self.buffered:
                self.conn.unread = False
            return r

    def fetchone(self):
        with Use(self.conn):
            self._need()
            if not self.rows:
                return None
            r = self.rows.pop(0)
            if not self.rows and not self.buffered:
                self.conn.unread = False
            return r

    def fetchmany(self, size=1):
        out = []
        while len(out) < size:
            r = self.fetchone()
            if r is None:
                break
            out.append(r)
        return out

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        if not self.closed and not self.buffered and self.rows:
            self.conn.unread = False
        self.closed = True
        return True

    def setinputsizes(self, *a):
        pass

    def setoutputsize(self, *a):
        pass


_real = None


def install():
    global _real
    if _real is None:
        _real = mysql.connector.connect
    mysql.connector.connect = connect
    mysql.connector.Connect = connect
