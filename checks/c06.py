"""C06: encryption metadata survives restarts and matches the live tables."""
from hypothesis import strategies as st

from vlib import e2e, gen, minisql
from vlib.core import Sub, Violation, short

PROPERTY = "C06"
TECHNIQUE = ("stateful property-based testing: generated create/drop/insert/restart histories with faults in the metadata "
             "store and the backend, against a model of which tables exist")
LEVEL_NOTE = ("Generated histories over both metadata stores (an in-memory MySQL stand-in and real SQLite files made "
              "from the shipped schema); faults are injected into the MySQL stand-in only.")
RULE = "a table holding rows was read after a restart, or a create or drop ran into a fault"
ASSUMPTIONS = ["names compare case-sensitively in the metadata store", "the backend's DDL is atomic",
               "a CREATE of an already existing table is the listed finding and not generated"]

NAMES = ["t", "users", "Orders_1", "order", "user table", "表", "a-b", "it's", "x\"y", "a%s", "T2", "t2", "a.b?", "b\\c"]
DBS = ("points", "other")
FAULTS = ["meta_idle", "meta_idle", "meta_lost", "meta_refused", "meta_commit_refused", "back_refused", "back_lost_before",
          "back_lost_after", "back_idle"]


@st.composite
def schema(draw, name):
    return draw(gen.schema(table=name, max_cols=5, enc_min=1, defaults=False, key=False))


@st.composite
def history(draw):
    store = draw(st.sampled_from(["mysql", "mysql", "sqlite"]))
    names = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
    if store == "sqlite":
        faults = ["back_refused", "back_lost_before", "back_lost_after", "back_idle"]
    else:
        faults = FAULTS
    schemas, ops = [], []
    cur = {}
    dbs = DBS[:draw(st.sampled_from([1, 2, 2]))]
    for _ in range(draw(st.integers(4, 14))):
        kind = draw(st.sampled_from(["create"] * 4 + ["drop"] * 3 + ["insert"] * 4 + ["restart"] * 3))
        n = draw(st.sampled_from(names)), draw(st.sampled_from(dbs))
        if kind == "restart":
            ops.append({"op": "restart"})
            continue
        if kind == "create" or n not in cur:
            schemas.append(dict(draw(schema(n[0])), db=n[1]))
            cur[n] = len(schemas) - 1
            o = {"op": "create", "s": cur[n], "ine": draw(st.booleans())}
        elif kind == "drop":
            o = {"op": "drop", "s": cur[n], "ie": draw(st.integers(0, 3)) == 0}
        else:
            ops.append({"op": "insert", "s": cur[n], "rows": draw(gen.rows(schemas[cur[n]], 1, 3))})
            continue
        if draw(st.integers(0, 2)) == 0:
            o["fault"] = {"kind": draw(st.sampled_from(faults)), "at": draw(st.integers(0, 4))}
        ops.append(o)
    ops.append({"op": "restart"})
    return {"store": store, "dbs": list(dbs), "ops": ops, "schemas": schemas}


class Injector:
    """one fault while one statement runs"""

    def __init__(self, w, spec):
        self.w, self.spec, self.fired, self.k = w, spec, False, 0

    def __enter__(self):
        from mysql.connector import errors as E
        if not self.spec:
            return self
        kind, at = self.spec["kind"], self.spec["at"]
        w = self.w
        if kind == "meta_idle":
            w.meta_server.kill_all([w.meta_db])
            self.fired = True
        elif kind == "back_idle":
            w.server.kill_all([d for d in w.server.databases if d != w.meta_db])
            self.fired = True
        elif kind == "meta_commit_refused":
            def cf(conn):
                if conn.dbname != w.meta_db or self.fired:
                    return None
                self.fired = True
                return E.DatabaseError(errno=1180, msg="Got error during COMMIT")
            w.meta_server.commit_faults.append(cf)
        else:
            def f(conn, sql):
                meta = conn.dbname == w.meta_db
                if self.fired or meta != kind.startswith("meta"):
                    return None
                if meta and sql.lstrip().lower().startswith("select"):
                    return None
                if meta and self.k < at:
                    self.k += 1
                    return None
                self.fired = True
                if kind.endswith("refused"):
                    return E.DatabaseError(errno=1114, msg="The table is full")
                if kind == "back_lost_after":
                    try:
                        conn.session.execute(sql)
                    except minisql.SqlError:
                        pass
                else:
                    conn.session.rollback()
                conn.dead = True
                return E.OperationalError(errno=2013, msg="Lost connection to MySQL server during query")
            for s in {id(w.server): w.server, id(w.meta_server): w.meta_server}.values():
                s.faults.append(f)
        return self

    def __exit__(self, *exc):
        for s in (self.w.server, self.w.meta_server):
            s.faults.clear()
            s.commit_faults.clear()


def must_be_gone(p, s, why):
    """no statement on the table may succeed"""
    t = gen.q(s["table"])
    for sql in ("SELECT * FROM " + t, gen.insert_sql(s, [[None] * len(s["cols"])]), "DELETE FROM " + t):
        rows, err = p.try_proxy(sql, db=s.get("db"))
        if err is None:
            raise Violation("a table that does not exist (%s) is still usable: %s answered %s" % (why, sql, short(rows)))


def check_live(p, s, why):
    t = gen.q(s["table"])
    rows = p.check_table(s, "table contents " + why, s.get("db"))
    ans = p.proxy("SELECT * FROM " + t, db=s.get("db"))
    if rows:
        types = [c["type"][0] for c in s["cols"]]
        if list(ans["columns"][0]) != [c["name"] for c in s["cols"]] or list(ans["columns"][1]) != types:
            raise Violation("columns %s: reported %s, declared %s %s" % (why, short(ans["columns"]),
                                                                        [c["name"] for c in s["cols"]], types))
    for i, c in enumerate(s["cols"]):
        if not c["enc"]:
            continue
        vals = [r[i] for r in rows if r[i] is not None][:2]
        for v in vals:
            for op in ["="] + (["<="] if gen.ranged(c) else []):
                sql = "SELECT * FROM %s WHERE %s %s %s" % (t, gen.q(c["name"]), op, gen.lit(v))
                got, want = p.select(sql, s.get("db"))
                if not e2e.multiset_equal(got, want):
                    raise Violation("%s: %s, plaintext %s\n  statement: %s" % (why, short(got), short(want), sql))
        if vals and c["enc"].get("arithmetic"):
            sql = "SELECT SUM(%s) FROM %s" % (gen.q(c["name"]), t)
            got, want = p.select(sql, s.get("db"))
            if abs(float(got[0][0]) - float(want[0][0])) > 1e-6 * (1 + abs(float(want[0][0]))):
                raise Violation("%s: %s, plaintext %s\n  statement: %s" % (why, short(got), short(want), sql))
    return len(rows)


def run(case, note):
    p = e2e.Pair(dbs=tuple(case.get("dbs", DBS[:1])), store=case["store"])
    note.label("store_" + case["store"])
    live, gone, latest = {}, {}, {}           # name -> schema index
    for o in case["ops"]:
        if o["op"] == "restart":
            p.w.restart()
            for k in live.values():
                n = check_live(p, case["schemas"][k], "after a restart")
                note.nontrivial(n)
            for k in gone.values():
                must_be_gone(p, case["schemas"][k], "after a restart")
            continue
        s = case["schemas"][o["s"]]
        name, db = (s["table"], s.get("db")), s.get("db")
        if o["op"] == "create":
            if name in live:
                continue
            sql = gen.create_sql(s, if_not_exists=o["ine"])
            with Injector(p.w, o.get("fault")) as inj:
                rows, err = p.try_proxy(sql, encrypted=gen.encrypted_columns(s), db=db)
            kind = o["fault"]["kind"] if inj.fired else None
            if err is None:
                if kind in ("meta_refused", "back_refused", "meta_commit_refused"):
                    raise Violation("CREATE reported success under fault %s" % kind)
                p.refexec(gen.create_sql(s, reference=True), db)
                live[name] = o["s"]
                gone.pop(name, None)
                check_live(p, s, "after CREATE")
            else:
                if kind in (None, "meta_idle", "back_idle"):
                    raise Violation("CREATE failed%s: %s: %s\n  statement: %s" % (
                        " after a lost idle connection" if kind else "", type(err).__name__, short(str(err)), sql))
                gone[name] = o["s"]
                must_be_gone(p, s, "its CREATE failed")
            note.label("create_%s%s" % ("ok" if err is None else "failed", "_" + kind if kind else ""))
            note.nontrivial(kind)
        elif name not in live:
            if o["op"] == "insert" and gone.get(name) == o["s"]:
                must_be_gone(p, s, "dropped or never created")
            continue
        elif live[name] != o["s"]:
            continue
        elif o["op"] == "insert":
            p.write(gen.insert_sql(s, o["rows"]), db)
        else:
            sql = "DROP TABLE %s%s" % ("IF EXISTS " if o["ie"] else "", gen.q(s["table"]))
            with Injector(p.w, o.get("fault")) as inj:
                rows, err = p.try_proxy(sql, db=db)
            kind = o["fault"]["kind"] if inj.fired else None
            if err is None:
                if kind in ("meta_refused", "back_refused", "meta_commit_refused"):
                    raise Violation("DROP reported success under fault %s" % kind)
                dropped = True
            elif kind in (None, "meta_idle", "back_idle"):
                raise Violation("DROP failed%s: %s: %s\n  statement: %s" % (
                    " after a lost idle connection" if kind else "", type(err).__name__, short(str(err)), sql))
            else:
                dropped = kind not in ("back_refused", "back_lost_before")
            if dropped:
                p.refexec("DROP TABLE " + gen.q(s["table"]), db)
                gone[name] = live.pop(name)
                must_be_gone(p, s, "dropped")
            note.label("drop_%s%s" % ("ok" if err is None else "failed", "_" + kind if kind else ""))
            note.nontrivial(kind)
        for k in live.values():
            p.check_table(case["schemas"][k], "table contents after " + o["op"], case["schemas"][k].get("db"))


def recreate(case, note):
    """a second CREATE of an existing table: refused, or a no-op, or at least nothing is lost"""
    s = {"table": "t", "cols": [{"name": "a", "type": ["int"], "enc": {"key": "k", "fuzzy": False}}]}
    p = e2e.Pair()
    p.create(s)
    p.write(gen.insert_sql(s, [[1], [2]]))
    p.try_proxy(gen.create_sql(s, if_not_exists=case["ine"]), encrypted=gen.encrypted_columns(s))
    rows, err = p.try_proxy("SELECT a FROM t")
    if err is not None or sorted(rows) != [(1,), (2,)]:
        raise Violation("rows stored before a second CREATE of the table can no longer be read: %s" % short(rows))


SUBS = [Sub("recreate", None, recreate, quick=0, thorough=0, shards=(1, 1)),
        Sub("lifecycle", history, run, quick=400, thorough=12000, shards=(8, 16))]
