"""C31: concurrent requests do not affect each other."""
import copy
import json
import sys
import urllib.parse

from hypothesis import strategies as st

from vlib import boot, e2e, gen, minisql, sched
from vlib.core import Sub, Violation, short

PROPERTY = "C31"
TECHNIQUE = ("stateful property-based testing under generated thread schedules: rounds of concurrent requests to the service's "
             "endpoints, interleaved deterministically line by line; the answers and the final tables must be those of some "
             "serial order on a plaintext database")
LEVEL_NOTE = ("Two or three threads with one or two requests each, handled by the service's own handlers in threads that a "
              "generated schedule interleaves at lines of the proxy's code, over an in-memory MySQL stand-in whose statements are "
              "atomic. Connections of either server may be lost before a round.")
RULE = "the threads of a round were switched at least twice, and the round held a write and another request, or two conversions or sums"
ASSUMPTIONS = ["a backend statement is atomic, and a sum does not run beside a write on its table (the stand-in has no snapshots)",
               "a table is created or dropped by at most one request of a round; a second CREATE is the finding of C06"]
BUDGET = {"quick": 90, "thorough": 900}

DBS = ["points", "other_db"]
PRIMES = (1000003, 1000033)
FILES = {"handler": ["handler.py"], "store": ["scheduler/schema/"], "all": ["scheduler/", "controller/", "handler.py", "service.py", "dbutils/"],
         "state": ["scheduler/schema/", "scheduler/backend/", "controller/", "handler.py", "scheduler/handers/clause/sql_clause.py"],
         "meta": ["scheduler/schema/", "handler.py"],
         "handers": ["scheduler/handers/", "scheduler/backend/"],
         "format": ["sql_parsing/", "scheduler/handers/rewrite_hander.py"],
         "crypto": ["scheduler/crypto/encrypt.py", "scheduler/handers/clause/sql_values.py", "scheduler/handers/decrypt_handler.py"]}


@st.composite
def rounds(draw):
    schemas = []
    for t in draw(st.permutations(gen.TABLES))[:draw(st.integers(1, 3))]:
        s = draw(gen.schema(table=t, max_cols=4, plain_kinds=["int", "varchar", "text", "decimal", "bigint", "double"]))
        s["cols"] = [c for c in s["cols"] if not c.get("auto")] or [{"name": "a", "type": ["int"], "enc": None}]
        s["db"] = draw(st.sampled_from(DBS))
        schemas.append(s)
    base = len(schemas)
    rows = [draw(gen.rows(s, 0, 4)) for s in schemas]
    pools = [list(r) for r in rows]
    gone, out, fresh = set(), [], ["new_" + x for x in "abcdefgh"]
    for _ in range(draw(st.integers(1, 2))):
        live = [i for i in range(len(schemas)) if i not in gone]
        n = draw(st.integers(2, 3))
        ddls = draw(st.integers(0, 3)) == 0          # a round of creates and drops
        two = [draw(st.integers(0, 2)) == 0 for _ in range(n)]
        ddl = set()                  # tables with DDL in this round
        drops, summed, seen = set(), False, False
        progs, touched = [], {}
        for k in range(n):
            prog = []
            for _ in range(2 if two[k] else 1):
                kind = draw(st.sampled_from(["create", "create", "drop"])) if ddls and not seen else draw(st.sampled_from(["insert"] * 4 + ["select"] * 4 + ["update", "delete", "convert", "convert", "create",
                                                                              "create", "drop", "sum", "sum", "schema", "rewrite"]))
                end = draw(st.sampled_from(["query", "jdbc", "jdbc", "jar"]))
                use = [i for i in live if not (i in ddl and (two[k] or kind in ("convert", "rewrite") or seen))]
                if kind == "create" and fresh:
                    t = fresh.pop(0)
                    s = draw(gen.schema(table=t, max_cols=3, plain_kinds=["int", "varchar", "double"], key=False))
                    s["db"] = draw(st.sampled_from(DBS))
                    schemas.append(s)
                    pools.append([])
                    rows.append([])
                    if seen:
                        schemas.pop(), pools.pop(), rows.pop()
                        continue
                    ddl.add(len(schemas) - 1)
                    prog.append(["create", len(schemas) - 1, draw(st.sampled_from(["query", "jdbc"]))])
                elif kind == "drop":
                    can = [i for i in live if i not in ddl and i not in touched and not two[k] and not seen]
                    if can:
                        i = draw(st.sampled_from(can))
                        ddl.add(i)
                        drops.add(i)
                        prog.append(["drop", i, end])
                elif kind == "sum":
                    prog.append(["sum", draw(st.sampled_from(["n", "m", "n, m"])), draw(st.sampled_from(DBS)), end])
                elif kind == "schema":
                    if not ddl:
                        seen = True
                        prog.append(["schema", draw(st.sampled_from(DBS))])
                elif use:
                    i = draw(st.sampled_from(use))
                    s = schemas[i]
                    if i not in ddl:
                        touched[i] = True
                    if kind == "insert":
                        data = draw(gen.rows(s, 1, 2))
                        pools[i] = pools[i] + data
                        prog.append(["write", i, end, gen.insert_sql(s, data)])
                    elif kind == "update":
                        j = draw(st.integers(0, len(s["cols"]) - 1))
                        prog.append(["write", i, end, "UPDATE %s SET %s = %s WHERE %s" % (
                            gen.q(s["table"]), gen.q(s["cols"][j]["name"]), gen.lit(draw(gen.values(s["cols"][j]))),
                            gen.cond_sql(s, draw(gen.cond(s, pools[i], depth=0))))])
                    elif kind == "delete":
                        prog.append(["write", i, end, "DELETE FROM %s WHERE %s" % (
                            gen.q(s["table"]), gen.cond_sql(s, draw(gen.cond(s, pools[i], depth=0))))])
                    else:
                        sel = draw(gen.select(s, pools[i]))
                        sel.pop("limit", None)
                        prog.append([kind, i, end, sel])
            if prog:
                progs.append(prog)
        # a new table may be used by one request beside its creation
        for i in sorted(ddl - drops):
            if draw(st.booleans()) and len(progs) < 3 and not seen:
                s = schemas[i]
                progs.append([draw(st.sampled_from([["write", i, "query", gen.insert_sql(s, draw(gen.rows(s, 1, 1)))],
                                                    ["select", i, "query", {"cols": "*", "case": "upper"}]]))])
        gone |= drops
        if len(progs) < 2:
            continue
        files = draw(st.sampled_from(["store", "store", "meta"] if ddls else sorted(FILES)))
        gap = draw(st.sampled_from({"all": [12, 60, 300, 2000], "handler": [3, 6], "store": [3, 8], "meta": [4, 12]}.get(
            files, [8, 40, 200])))
        out.append({"threads": progs, "kill": draw(st.sampled_from([None] * 4 + ["meta", "backend", "both"])),
                    "files": files,
                    "schedule": [list(x) for x in draw(st.lists(st.tuples(st.integers(1, gap), st.integers(0, 2)), min_size=3,
                                                                max_size=16))]})
    return {"schemas": schemas, "base": base, "rows": rows[:base], "rounds": out}


@st.composite
def definitions(draw):
    """several tables made and dropped at once, nothing else"""
    schemas = []
    for t in ["ta", "tb", "tc", "td", "te"][:draw(st.integers(2, 5))]:
        enc = draw(st.lists(st.booleans(), min_size=1, max_size=3))
        schemas.append({"table": t, "db": draw(st.sampled_from(DBS)), "cols": [
            {"name": n, "type": ["int"], "enc": {"key": "k" + n, "fuzzy": False} if e else None} for n, e in zip("xyz", enc)]})
    base = draw(st.integers(0, len(schemas) - 2))
    left, live, out = list(range(base, len(schemas))), list(range(base)), []
    for _ in range(draw(st.integers(1, 2))):
        progs = []
        for _ in range(draw(st.integers(2, 3))):
            i = None
            if left and draw(st.integers(0, 3)):
                i = left.pop(0)
                progs.append([["create", i, draw(st.sampled_from(["query", "jdbc"]))]])
            elif live:
                i = live.pop(0)
                progs.append([["drop", i, draw(st.sampled_from(["query", "jdbc"]))]])
        if len(progs) < 2:
            break
        live = [i for i in range(len(schemas)) if i not in left and not any(q[0][0] == "drop" and q[0][1] == i
                                                                            for r in out + [{"threads": progs}] for q in r["threads"])]
        gap = draw(st.sampled_from([2, 4, 8]))
        out.append({"threads": progs, "kill": draw(st.sampled_from([None] * 4 + ["meta", "backend", "both"])),
                    "files": draw(st.sampled_from(["store", "store", "meta", "state"])),
                    "schedule": [list(x) for x in draw(st.lists(st.tuples(st.integers(1, gap), st.integers(0, 2)), min_size=4,
                                                                max_size=30))]})
    return {"schemas": schemas, "base": base, "rows": [[[1] * len(s["cols"])] for s in schemas[:base]], "rounds": out}


SUM_TABLE = {"table": "sums", "cols": [
    {"name": "n", "type": ["int"], "enc": {"key": "abcdefgh", "fuzzy": False, "arithmetic": True, "homomorphic_key": list(PRIMES)}},
    {"name": "m", "type": ["int"], "enc": {"key": "hgfedcba", "fuzzy": False, "arithmetic": True,
                                           "homomorphic_key": [1000081, 1000099]}}]}
SUM_ROWS = {"points": [[3, 100], [-5, 20], [11, -7]], "other_db": [[1000, 1], [-1, 2]]}


class Proxy:
    def __init__(self, p):
        from vlib import inline
        self.p, self.w = p, p.w
        s = p.w.meta_server.session(p.w.meta_db)
        for i, db in enumerate(DBS):
            s.execute("INSERT INTO p_datasource (id, name, username, password, connection_url, driver_class_name, ping) VALUES "
                      "(%d, 'src%d', '%s', '%s', 'jdbc:mysql://%s:%s/%s', 'com.mysql.cj.jdbc.Driver', 'SELECT 1')" % (
                          i + 1, i, p.w.user, p.w.password, p.w.server.host, p.w.server.port, db))
        s.commit()
        self.h = inline.Service()
        for name, m in list(sys.modules.items()):
            if name.split(".")[0] in ("scheduler", "controller", "handler", "service", "dbutils", "sql_parsing", "parsing"):
                sched.replace_locks(m)

    # -- requests; all return ("ok", rows) or ("error", text)
    def execute(self, end, db, sql):
        info = self.w.info(sql, db)
        if end == "query":
            st_, text = self.h.post("/query", info)
        elif end == "jar":
            st_, text = self.h.request("POST", "/query_jar", urllib.parse.urlencode(
                {k: info[k] for k in info if k not in ("host", "port")}), {"Content-Type": "application/x-www-form-urlencoded"})
        else:
            st_, text = self.h.post("/jdbc_query", {"sqlQuery": sql, "jdbcDataSourceId": (DBS.index(db) + 1), "ciphertext": False,
                                                    "resultLimit": 1000})
        if st_ != 200:
            return "error", text
        out = json.loads(text)
        if end == "jdbc":
            if out.get("error"):
                return "error", text
            return "ok", [tuple(v for _, v in r) for r in json.loads(out.get("data", "[]"), object_pairs_hook=list)]
        return "ok", [tuple(r) for r in out["result"]]

    def create(self, s, end):
        sql, enc = gen.create_sql(s), gen.encrypted_columns(s)
        if end == "query":
            st_, text = self.h.post("/query", self.w.info(sql, s["db"], encrypted_columns=enc))
        else:
            st_, text = self.h.post("/jdbc_query", {"create_table": sql, "encrypted_columns": enc, "selectedJdbcDataSource": {
                "value": DBS.index(s["db"]) + 1}})
        return ("ok", []) if st_ == 200 else ("error", text)

    def convert(self, db, sql):
        st_, text = self.h.post("/encrypt_sql2", {"sql": sql, "db": db})
        out = json.loads(text) if st_ == 200 else {}
        if "id" not in out:
            return "error", text
        from checks.c23 import wire
        rows = minisql.Session(self.w.backend(db)).execute(out["encrypt_sql"])[1]
        st_, text = self.h.post("/decrypt_data", {"query_id": out["id"], "data": {"rows": [[wire(v) for v in r] for r in rows]}})
        d = json.loads(text) if st_ == 200 else {}
        if "data" not in d:
            return ("ok", []) if not rows and d == {"result": ""} else ("error", text)
        return "ok", [tuple(r) for r in d["data"]["rows"]]

    def rewrite(self, db, sql):
        """the statement as the server gets it, run there"""
        st_, text = self.h.post("/encrypt_sql", {"sqlQuery": sql, "jdbcDataSourceId": (DBS.index(db) + 1)})
        if st_ != 200:
            return "error", text
        rows = minisql.Session(self.w.backend(db)).execute(json.loads(text)["encrypt_sql"])[1]
        return "ok", [(len(rows),)]

    def schema(self, db):
        st_, text = self.h.request("GET", "/jdbc_query/schema/%d" % (DBS.index(db) + 1))
        if st_ != 200:
            return "error", text
        return "ok", sorted((t["name"], tuple(c["name"] for c in t["columns"])) for t in json.loads(text))


def request(px, schemas, op):
    """-> a function doing it"""
    k = op[0]
    if k == "create":
        return px.create(schemas[op[1]], op[2])
    if k == "sum":
        return px.execute(op[3], op[2], sum_sql(op))
    if k == "schema":
        return px.schema(op[1])
    s = schemas[op[1]]
    if k == "drop":
        return px.execute(op[2], s["db"], "DROP TABLE " + gen.q(s["table"]))
    if k == "write":
        return px.execute(op[2], s["db"], op[3])
    sql = gen.select_sql(s, op[3])
    if k == "convert":
        return px.convert(s["db"], sql)
    if k == "rewrite":
        return px.rewrite(s["db"], sql)
    return px.execute(op[2], s["db"], sql)


def sum_sql(op):
    return "SELECT " + ", ".join("SUM(%s)" % c for c in op[1].split(", ")) + " FROM sums"


def reference(state, schemas, op):
    """run it on the plaintext databases of `state`"""
    k = op[0]
    if k == "schema":
        db = op[1]
        return "ok", sorted((s["table"], tuple(c["name"] + (" *" if c["enc"] else "") for c in s["cols"]))
                            for s in schemas + [dict(SUM_TABLE, db=db)] if s["db"] == db and s["table"] in state[db].tables)
    db = op[2] if k == "sum" else schemas[op[1]]["db"]
    sql = {"create": lambda: gen.create_sql(schemas[op[1]], reference=True), "sum": lambda: sum_sql(op),
           "drop": lambda: "DROP TABLE " + gen.q(schemas[op[1]]["table"]), "write": lambda: op[3]}.get(
               k, lambda: gen.select_sql(schemas[op[1]], op[3]))()
    s = minisql.Session(state[db])
    try:
        rows = s.execute(sql)[1]
    except minisql.SqlError as e:
        s.rollback()
        return "error", str(e)
    s.commit()
    rows = [tuple(r) for r in rows or []]
    return "ok", [(len(rows),)] if k == "rewrite" else rows


def agree(op, got, want):
    if got[0] != want[0]:
        return False
    if got[0] == "error":
        return True
    if op[0] == "schema":
        return got[1] == want[1]
    if op[0] in ("select",) and "order" in op[3] and "aggs" not in op[3]:
        cols = op[3]["cols"]
        pos = [i if cols == "*" else cols.index(i) if i in cols else None for i, _ in op[3]["order"]]
        if None not in pos and not e2e.rows_equal([tuple(r[p] for p in pos) for r in got[1]],
                                                  [tuple(r[p] for p in pos) for r in want[1]]):
            return False
    return e2e.multiset_equal(got[1], want[1])


def contents(state):
    return json.dumps({db: {t: sorted(map(repr, (list(r) for r in x.rows))) for t, x in sorted(state[db].tables.items())}
                       for db in DBS}, default=str)


def orders(states, schemas, progs, answers):
    """the states that serial orders which give these answers can end in"""
    found = {}

    def go(state, at):
        if all(a == len(p) for a, p in zip(at, progs)):
            found.setdefault(contents(state), state)
            return
        for t, p in enumerate(progs):
            if at[t] == len(p):
                continue
            op = p[at[t]]
            writes = op[0] in ("write", "create", "drop")
            nxt = copy.deepcopy(state) if writes else state
            if agree(op, answers[t][at[t]], reference(nxt, schemas, op)):
                go(nxt, at[:t] + (at[t] + 1,) + at[t + 1:])
                if not writes:
                    return      # where a read agrees, the other orders only differ in when it happens
    for s in states:
        go(s, (0,) * len(progs))
    return list(found.values())


def run(case, note):
    p = e2e.Pair(dbs=tuple(DBS))
    px = Proxy(p)
    schemas = case["schemas"]
    state = {db: p.ref[db].db for db in DBS}

    def setup(got, op):
        want = reference(state, schemas, op) if op else None
        if got[0] != "ok" or want and want[0] != "ok":
            if want and got[0] == want[0]:
                return
            raise Violation("%s answers %s before there is any concurrency, plaintext %s" % (op, short(got), short(want)))
    for i, s in enumerate(schemas[:case["base"]]):
        setup(px.create(s, "query"), ["create", i])
        for r in case["rows"][i]:
            sql = gen.insert_sql(s, [r])
            setup(px.execute("query", s["db"], sql), ["write", i, "query", sql])
    for db in sorted({op[2] for r in case["rounds"] for q in r["threads"] for op in q if op[0] == "sum"}):
        s = dict(SUM_TABLE, db=db)
        minisql.Session(state[db]).execute(gen.create_sql(s, reference=True))
        setup(px.create(s, "query"), None)
        sql = gen.insert_sql(s, SUM_ROWS[db])
        minisql.Session(state[db]).execute(sql)
        setup(px.execute("query", db, sql), None)
    states = [state]
    for r in case["rounds"]:
        if r["kill"] in ("meta", "both"):
            p.w.meta_server.kill_all()
        if r["kill"] in ("backend", "both"):
            p.w.server.kill_all()
        progs = r["threads"]
        answers = [[] for _ in progs]

        def body(t):
            def f():
                for op in progs[t]:
                    answers[t].append(request(px, schemas, op))
            return f
        s = sched.Sched(r["schedule"], [boot.REPO + "/" + x for x in FILES[r["files"]]], mode="monitor", limit=4000000,
                        others=True)
        try:
            res = s.run([body(t) for t in range(len(progs))])
        except sched.Deadlock as e:
            raise Violation("%s, running %s" % (e, short(progs)))
        for kind, e in res:
            if kind == "error":
                raise e if isinstance(e, Exception) else Violation("a request ended with %r" % (e,))
        kinds = [op[0] for q in progs for op in q]
        note.label(*("op_" + k for k in kinds))
        note.label("switches_%s" % (s.switches if s.switches < 3 else "many"), "files_" + r["files"])
        if r["kill"]:
            note.label("lost_" + r["kill"])
        if s.switches >= 2 and (set(kinds) & {"write", "create", "drop"} or kinds.count("convert") > 1 or kinds.count("sum") > 1):
            note.nontrivial()
        states2 = orders(states, schemas, progs, answers)
        if not states2:
            raise Violation("no serial order of these requests gives these answers: %s" % "; ".join(
                "thread %d: %s -> %s" % (t, short(describe(schemas, op), 300), short(a, 300))
                for t, q in enumerate(progs) for op, a in zip(q, answers[t])))
        states = states2
    final(px, schemas, states, "at the end")
    p.w.restart()
    final(Proxy2(p), schemas, states, "after a restart")


class Proxy2:
    """the restarted proxy, without HTTP"""
    def __init__(self, p):
        self.p = p

    def execute(self, end, db, sql):
        try:
            return "ok", [tuple(r) for r in self.p.w.query(sql, db=db)["result"]]
        except Exception as e:
            return "error", repr(e)


def final(px, schemas, states, when):
    got = {}
    for i, s in enumerate(schemas):
        got[i] = px.execute("query", s["db"], "SELECT * FROM " + gen.q(s["table"]))
    why = ""
    for state in states:
        for i, s in enumerate(schemas):
            want = reference(state, schemas, ["select", i, "query", {"cols": "*", "case": "upper"}])
            if got[i][0] != want[0] or want[0] == "ok" and not e2e.multiset_equal(got[i][1], want[1]):
                why = "%s %s holds %s, plaintext %s" % (when, s["table"], short(got[i]), short(want))
                break
        else:
            return
    raise Violation(why)


def describe(schemas, op):
    if op[0] == "write":
        return op[3]
    if op[0] in ("select", "convert", "rewrite"):
        return op[0] + " " + gen.select_sql(schemas[op[1]], op[3])
    if op[0] in ("create", "drop"):
        return op[0] + " " + schemas[op[1]]["table"]
    return str(op)


SUBS = [Sub("rounds", rounds, run, quick=700, thorough=20000, shards=(8, 16), case_timeout=60),
        Sub("definitions", definitions, run, quick=400, thorough=8000, shards=(4, 16), case_timeout=60)]
