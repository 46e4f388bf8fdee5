"""C03: any history of statements leaves the same data as on a plaintext database."""
from hypothesis import strategies as st

from vlib import e2e, gen, minisql
from vlib.core import Sub, Violation, short

PROPERTY = "C03"
TECHNIQUE = ("stateful property-based testing: generated histories of statements, backend faults and restarts against a "
             "plaintext model")
LEVEL_NOTE = ("Generated histories through the real proxy, pool and hardened connections over an in-memory MySQL "
              "stand-in with injected losses and refusals; trusts that stand-in's transaction behaviour.")
RULE = "at least two successful writes touched encrypted columns, one of them an UPDATE or DELETE or under a fault"
ASSUMPTIONS = ["a backend connection lost during a statement rolls its transaction back",
               "refused statements leave the backend unchanged", "value domain as in C01"]

FAULTS = ["kill", "lost_before", "lost_after", "commit_lost", "refused", "down"]


@st.composite
def where(draw, s, pool):
    return draw(gen.cond(s, pool, depth=1))


@st.composite
def history(draw):
    nt = draw(st.integers(1, 2))
    tables = draw(st.permutations(gen.TABLES))[:nt]
    schemas, ops = [], []
    live = {}
    pools = {}

    def new(t):
        s = draw(gen.schema(table=tables[t], max_cols=4, enc_min=1, key=True))
        s["cols"] = [c for c in s["cols"] if not c.get("auto")]     # gaps in AUTO_INCREMENT are not specified
        schemas.append(s)
        live[t] = len(schemas) - 1
        pools[t] = []
        ops.append({"op": "create", "s": live[t]})
    for t in range(nt):
        new(t)
    for _ in range(draw(st.integers(3, 14))):
        kind = draw(st.sampled_from(["insert"] * 6 + ["update"] * 5 + ["delete"] * 3 + ["select"] * 3 +
                                    ["fault"] * 3 + ["restart", "recreate", "create_again"]))
        t = draw(st.integers(0, nt - 1))
        k = live[t]
        s = schemas[k]
        n = len(s["cols"])
        if kind == "insert":
            data = draw(gen.rows(s, 1, 4))
            pools[t] = pools[t] + data
            ops.append({"op": "insert", "s": k, "rows": data})
        elif kind == "update":
            sets = []
            for i in draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True)):
                c = s["cols"][i]
                if c.get("auto"):
                    continue
                null = not c.get("notnull") and not c.get("pk") and draw(st.integers(0, 5)) == 0
                sets.append([i, None if null else draw(gen.values(c))])
            if not sets:
                continue
            pools[t] = pools[t] + [[v if v is not None else None for v in
                                    [dict(map(tuple, sets)).get(j) for j in range(n)]]]
            o = {"op": "update", "s": k, "sets": sets}
            if draw(st.integers(0, 6)):
                o["where"] = draw(where(s, pools[t][:-1] or pools[t]))
            ops.append(o)
        elif kind == "delete":
            o = {"op": "delete", "s": k}
            if draw(st.integers(0, 9)):
                o["where"] = draw(where(s, pools[t]))
            ops.append(o)
        elif kind == "select":
            ops.append({"op": "select", "s": k, "select": draw(gen.select(s, pools[t]))})
        elif kind == "fault":
            ops.append({"op": "fault", "kind": draw(st.sampled_from(FAULTS))})
        elif kind == "restart":
            ops.append({"op": "restart"})
        elif kind == "recreate":
            ops.append({"op": "drop", "s": k})
            if draw(st.booleans()):
                ops.append({"op": "insert", "s": k, "rows": draw(gen.rows(s, 1, 2))})
            new(t)
    return {"schemas": schemas, "ops": ops}


def write_sql(s, o):
    if o["op"] == "insert":
        return gen.insert_sql(s, o["rows"])
    if o["op"] == "drop":
        return "DROP TABLE " + gen.q(s["table"])
    w = " WHERE " + gen.cond_sql(s, o["where"]) if "where" in o else ""
    if o["op"] == "delete":
        return "DELETE FROM " + gen.q(s["table"]) + w
    return "UPDATE " + gen.q(s["table"]) + " SET " + ", ".join(
        "%s = %s" % (gen.q(s["cols"][i]["name"]), gen.lit(v)) for i, v in o["sets"]) + w


class Faults:
    def __init__(self, w):
        self.w, self.pending, self.fired = w, None, False

    def arm(self):
        from mysql.connector import errors as E
        kind, self.fired = self.pending, False
        srv, meta = self.w.server, self.w.meta_db
        if kind is None:
            return
        if kind == "kill":
            srv.kill_all()
            self.fired = True
            return
        if kind == "commit_lost":
            def cf(conn):
                if self.fired or conn.dbname == meta:
                    return None
                self.fired = True
                conn.session.rollback()
                conn.dead = True
                return E.OperationalError(errno=2013, msg="Lost connection to MySQL server during query")
            srv.commit_faults.append(cf)
            return

        def f(conn, sql):
            if conn.dbname == meta or sql.split()[0].upper() not in ("INSERT", "UPDATE", "DELETE", "SELECT", "CREATE",
                                                                      "DROP"):
                return None
            if kind in ("lost_before", "lost_after") and self.fired:
                return None
            if kind == "lost_after" and sql.split()[0].upper() not in ("INSERT", "UPDATE", "DELETE"):
                return None
            self.fired = True
            if kind == "refused":
                return E.DatabaseError(errno=1114, msg="The table is full")
            if kind == "lost_after":
                try:
                    conn.session.execute(sql)
                except minisql.SqlError:
                    pass
            conn.session.rollback()
            conn.dead = True
            return E.OperationalError(errno=2013, msg="Lost connection to MySQL server during query")
        srv.faults.append(f)

    def disarm(self):
        kind, fired = self.pending, self.fired
        self.w.server.faults.clear()
        self.w.server.commit_faults.clear()
        self.pending = None
        return kind, fired


def step(p, faults, sql, enc=None):
    """one statement on the proxy; -> (rows | None, exception | None, fault that hit it)"""
    faults.arm()
    try:
        rows, err = p.try_proxy(sql, encrypted=enc)
    finally:
        kind, fired = faults.disarm()
    if err is None and fired and kind in ("refused", "down"):
        raise Violation("reported success although the backend failed the statement (%s): %s" % (kind, short(sql, 400)))
    return rows, err, kind if fired else None


def run(case, note):
    p = e2e.Pair()
    faults = Faults(p.w)
    exists = {}                       # table name -> schema index
    writes = special = 0
    for o in case["ops"]:
        if o["op"] == "fault":
            faults.pending = o["kind"]
            continue
        if o["op"] == "restart":
            p.w.restart()
            for k in exists.values():
                p.check_table(case["schemas"][k], "table contents after a restart")
            note.label("restart")
            continue
        s = case["schemas"][o["s"]]
        name = s["table"]
        if o["op"] == "create":
            if name in exists:
                continue              # C06 covers a second CREATE of an existing table
            rows, err, kind = step(p, faults, gen.create_sql(s), gen.encrypted_columns(s))
            if err is None:
                p.refexec(gen.create_sql(s, reference=True))
                exists[name] = o["s"]
            elif kind is None:
                raise Violation("CREATE failed: %s: %s" % (type(err).__name__, short(str(err))))
            note.label("create_%s" % ("ok" if err is None else "refused"))
        elif name in exists and exists[name] != o["s"]:
            continue                  # generated for a table that could not be created
        elif o["op"] == "select":
            if name not in exists:
                continue
            faults.arm()
            hit = faults.pending
            sql = gen.select_sql(s, o["select"])
            rows, err = p.try_proxy(sql)
            kind, fired = faults.disarm()
            if err is not None and not fired:
                raise Violation("SELECT failed: %s: %s\n  statement: %s" % (type(err).__name__, short(str(err)), sql))
            if err is None:
                if fired and kind in ("refused", "down"):
                    raise Violation("reported success although the backend failed the statement (%s): %s" % (kind, sql))
                want = [tuple(r) for r in p.refexec(sql)[1]]
                e2e.check_answer(p, s, o["select"], sql, rows, want)
            note.label("select" + ("_" + hit if fired else ""))
            continue
        else:
            sql = write_sql(s, o)
            try:
                p.refexec_tentative(sql)
                want_ok = True
            except minisql.SqlError:
                want_ok = False
            rows, err, kind = step(p, faults, sql)
            if err is None and not want_ok:
                raise Violation("accepted a statement a plaintext database refuses: " + short(sql, 500))
            if err is not None and want_ok and (kind is None or kind == "kill"):
                raise Violation("failed%s where a plaintext database succeeds: %s: %s\n  statement: %s" % (
                    " after a lost idle connection" if kind else "", type(err).__name__, short(str(err), 300),
                    short(sql, 500)))
            if err is None:
                p.refexec(sql)
                if o["op"] == "drop":
                    exists.pop(name)
                writes += 1
                special += o["op"] in ("update", "delete") or kind is not None
            note.label("%s_%s" % (o["op"], "ok" if err is None else "refused"), *(["fault_" + kind] if kind else []))
        if name in exists:
            p.check_table(s, "table contents after %s" % o["op"])
    for k in exists.values():
        probe(p, case["schemas"][k])
    note.nontrivial(writes >= 2 and special)


def probe(p, s):
    """read every encrypted form of every encrypted column"""
    rows = p.check_table(s, "final table contents")
    t = gen.q(s["table"])
    for i, c in enumerate(s["cols"]):
        if not c["enc"]:
            continue
        n = gen.q(c["name"])
        vals = []
        for r in rows:
            if r[i] is not None and r[i] not in vals:
                vals.append(r[i])
        for v in vals[:3]:
            for op in ["="] + (["<", ">="] if gen.ranged(c) else []):
                sql = "SELECT * FROM %s WHERE %s %s %s" % (t, n, op, gen.lit(v))
                got, want = p.select(sql)
                if not e2e.multiset_equal(got, want):
                    raise Violation("the stored forms of a value disagree: %s, plaintext %s\n  statement: %s" % (
                        short(got), short(want), sql))
        if c["enc"].get("arithmetic") and vals and all(r[i] is not None for r in rows):
            sql = "SELECT SUM(%s) FROM %s" % (n, t)
            got, want = p.select(sql)
            if not e2e.same(e2e.norm(round(float(got[0][0]), 6)), e2e.norm(round(float(want[0][0]), 6))):
                raise Violation("the homomorphic form disagrees: %s, plaintext %s\n  statement: %s" % (
                    short(got), short(want), sql))


SUBS = [Sub("history", history, run, quick=800, thorough=15000, shards=(8, 16))]
