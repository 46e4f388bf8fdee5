"""C30: HTTP answers present exactly the query's columns and rows."""
import json
import urllib.parse

from hypothesis import strategies as st

from vlib import e2e, gen, minisql
from vlib.core import Sub, Violation, short

PROPERTY = "C30"
TECHNIQUE = ("stateful property-based testing over HTTP: generated histories of requests to the service's endpoints on a "
             "loopback port, the JSON answers compared with a plaintext database; malformed and failing requests mixed in")
LEVEL_NOTE = ("The service's own handlers run in a real tornado server; the backends are an in-memory MySQL stand-in. "
              "The /jdbc_query/component endpoint, which never gets a statement, is not covered.")
RULE = "a select with rows and at least one encrypted column was answered over HTTP, and a failing request was refused"
ASSUMPTIONS = ["data sources have jdbc:mysql://host:port/db addresses", "value domain as in C01",
               "an answer without rows may leave out the columns"]
BUDGET = {"quick": 90, "thorough": 900}

ENDPOINTS = ["query", "query", "jar", "jdbc", "jdbc", "jdbc"]
DBS = ["points", "other_db"]
IDS = [1, 7, 12, 340]


@st.composite
def simple_schema(draw, table):
    """what the form behind /create_table can describe"""
    cols = []
    for name in draw(st.permutations(gen.SAFE))[:draw(st.integers(1, 4))]:
        kind = draw(st.sampled_from(["int", "varchar", "varchar", "char", "float", "double"]))
        enc = draw(st.booleans())
        t = [kind] + ([draw(st.sampled_from([1, 5, 16, 20, 60, 255]))] if kind == "varchar" else
                      [draw(st.sampled_from([1, 10, 20]))] if kind == "char" else [])
        c = {"name": name, "type": t, "enc": None}
        if enc:
            c["enc"] = {"key": draw(gen.KEYS), "fuzzy": kind in ("int", "varchar", "char") and draw(st.booleans())}
        cols.append(c)
    return {"table": table, "cols": cols}


BAD_SQL = ["selec * from {t}", "select * from missing", "select nope from {t}", "", "select * from", "drop table missing",
           "insert into {t} values ()", "delete from missing", "update {t} set nope = 1", "show tables", "commit",
           "select 1", "alter table {t}", ";", "truncate table {t}"]


@st.composite
def history(draw):
    sources = [{"id": i, "db": draw(st.sampled_from(DBS))} for i in draw(st.permutations(IDS))[:draw(st.integers(1, 2))]]
    dbs = sorted({s["db"] for s in sources})
    if draw(st.integers(0, 3)) == 0:
        sources.append({"id": 99, "db": None})       # not MySQL
    schemas, ops, pools, taken = [], [], {}, set()

    def create():
        db = draw(st.sampled_from(dbs))
        free = [t for t in gen.TABLES if (db, t) not in taken]
        if not free:
            return
        t = draw(st.sampled_from(free))
        taken.add((db, t))
        form = draw(st.sampled_from(["query", "jdbc", "jdbc_text", "form"]))
        if form == "form":
            s = draw(simple_schema(t))
        else:
            s = draw(gen.schema(table=t, max_cols=5, plain_kinds=["int", "varchar", "text", "decimal", "datetime", "date",
                                                                 "bigint", "double", "char"]))
            s["cols"] = [c for c in s["cols"] if not c.get("auto")] or [{"name": "a", "type": ["int"], "enc": None}]
        s["db"] = db
        schemas.append(s)
        pools[len(schemas) - 1] = []
        ops.append(["create", len(schemas) - 1, form])
    create()
    for _ in range(draw(st.integers(3, 12))):
        k = draw(st.sampled_from(["create"] + ["insert"] * 4 + ["select"] * 7 + ["nested", "update", "delete", "bad", "bad",
                                                                               "schema", "convert", "junk"]))
        i = draw(st.integers(0, len(schemas) - 1))
        s, end = schemas[i], draw(st.sampled_from(ENDPOINTS))
        n = len(s["cols"])
        if k == "create":
            create()
        elif k == "insert":
            data = draw(gen.rows(s, 1, 4))
            pools[i] = pools[i] + data
            ops.append([k, i, end, gen.insert_sql(s, data)])
        elif k == "update":
            j = draw(st.integers(0, n - 1))
            v = draw(gen.values(s["cols"][j]))
            ops.append([k, i, end, "UPDATE %s SET %s = %s WHERE %s" % (
                gen.q(s["table"]), gen.q(s["cols"][j]["name"]), gen.lit(v), gen.cond_sql(s, draw(gen.cond(s, pools[i], depth=0))))])
        elif k == "delete":
            ops.append([k, i, end, "DELETE FROM %s WHERE %s" % (
                gen.q(s["table"]), gen.cond_sql(s, draw(gen.cond(s, pools[i], depth=0))))])
        elif k == "select":
            ops.append([k, i, end, draw(gen.select(s, pools[i])), draw(st.integers(0, 9)) == 0])
        elif k == "nested":
            cols = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
            if any(not s["cols"][j]["name"].isidentifier() or not s["cols"][j]["name"].isascii() for j in range(n)):
                continue
            ops.append([k, i, end, cols])
        elif k == "bad":
            ops.append([k, i, end, draw(st.sampled_from(BAD_SQL)),
                        draw(st.sampled_from(["", "", "", "", "password", "db", "source", "user"]))])
        elif k == "junk":
            ops.append([k, draw(st.sampled_from(["/query", "/jdbc_query", "/create_table", "/encrypt_sql", "/rewrite_query",
                                                 "/query_jar", "/encrypt_sql1", "/encrypt_sql2", "/decrypt_data"])),
                        draw(st.sampled_from(["", "junk", "{}", "[]", "null", "{\"query\": \"select 1\"}", "{\"x\": 1}", "{",
                                              "{\"sqlQuery\": \"select a from t\"}", "[1,2]", "3"]))])
        elif k == "schema":
            ops.append([k, draw(st.integers(0, len(sources) - 1))])
        else:
            ops.append([k, i, draw(gen.select(s, pools[i]))])
    ops.append(["schema", draw(st.integers(0, len(sources) - 1))])
    return {"sources": sources, "schemas": schemas, "ops": ops}


def parse(text, what):
    def bad(x):
        raise ValueError(x)
    try:
        return json.loads(text, parse_constant=bad)
    except ValueError as e:
        raise Violation("%s: the answer is not JSON (%s): %s" % (what, e, short(text)))


class Client:
    def __init__(self, pair, service, sources):
        self.p, self.h, self.sources = pair, service, sources

    def source(self, db):
        for s in self.sources:
            if s["db"] == db:
                return s["id"]
        raise KeyError(db)

    def raw(self, end, db, sql, spoil="", ciphertext=False):
        w = self.p.w
        info = w.info(sql, db)
        if spoil in ("password", "db", "user"):
            info[spoil] += "x"
        if end == "query":
            if ciphertext:
                info["ciphertext"] = True
            return self.h.post("/query", info)
        if end == "jar":
            if ciphertext:
                info["ciphertext"] = "1"
            return self.h.request("POST", "/query_jar", urllib.parse.urlencode(
                {k: info[k] for k in info if k not in ("host", "port")}),
                {"Content-Type": "application/x-www-form-urlencoded"})
        src = 4711 if spoil else self.source(db)
        return self.h.post("/jdbc_query", {"sqlQuery": sql, "jdbcDataSourceId": src, "ciphertext": ciphertext,
                                           "resultLimit": 1000})

    def run(self, end, db, sql, ciphertext=False):
        """-> (column names or None, types or None, rows)"""
        status, text = self.raw(end, db, sql, ciphertext=ciphertext)
        if status != 200:
            raise Violation("/%s answers %d for %s" % (end, status, short(sql, 400)))
        out = parse(text, sql)
        if end in ("query", "jar"):
            if not isinstance(out.get("result"), list):
                raise Violation("no result in %s for %s" % (short(text), short(sql)))
            if not out["result"]:
                return None, None, []
            return list(out["columns"][0]), list(out["columns"][1]), [tuple(r) for r in out["result"]]
        if out == {}:
            return None, None, []
        if out.get("error") is not None:
            raise Violation("error %s for %s" % (out["error"], short(sql)))
        names = [c["name"] for c in out["columns"]]
        types = [c["javaType"] for c in out["columns"]]
        rows = json.loads(out["data"], object_pairs_hook=list)
        for r in rows:
            if [k for k, v in r] != names:
                raise Violation("the columns are %s, a row has %s, for %s" % (names, [k for k, v in r], short(sql)))
        return names, types, [tuple(v for k, v in r) for r in rows]


def check_columns(end, want, kinds, names, types, sql):
    if len(names) != len(want):
        raise Violation("columns %s for %s" % (names, short(sql)))
    if len(set(names)) != len(names) and end == "jdbc":
        raise Violation("two columns of one name %s for %s" % (names, short(sql)))
    for k, (n, w) in enumerate(zip(names, want)):
        if n != w and (end != "jdbc" or want.count(w) == 1 or want.index(w) == k):
            raise Violation("column %d is called %s, asked for %s, by %s" % (k + 1, n, w, short(sql)))
        if end == "jdbc":
            if kinds[k] in ("int", "varchar") and types[k] != {"int": "INTEGER", "varchar": "VARCHAR"}[kinds[k]]:
                raise Violation("column %s of type %s is presented as %s" % (n, kinds[k], types[k]))
        elif types[k] != kinds[k]:
            raise Violation("column %s of type %s is presented as %s" % (n, kinds[k], types[k]))


def create(c, p, s, form):
    p.refexec(gen.create_sql(s, reference=True), s["db"])
    sql, enc = gen.create_sql(s), gen.encrypted_columns(s)
    if form == "query":
        status, text = c.h.post("/query", p.w.info(sql, s["db"], encrypted_columns=enc))
    elif form == "form":
        cols = [{"name": x["name"], "type": x["type"][0], "length": str((x["type"] + [0])[1]),
                 "encryption": str(bool(x["enc"])).lower(), "fuzzy": str(bool(x["enc"] and x["enc"]["fuzzy"])).lower(),
                 "token": x["enc"]["key"] if x["enc"] else ""} for x in s["cols"]]
        status, text = c.h.post("/create_table", {"selectedJdbcDataSource": {"value": c.source(s["db"])}, "dataSource": cols,
                                                  "count": len(cols), "table_name": s["table"]})
    else:
        status, text = c.h.post("/jdbc_query", {"create_table": sql, "selectedJdbcDataSource": {"value": c.source(s["db"])},
                                                "encrypted_columns": repr(enc) if form == "jdbc_text" else enc})
    if status != 200:
        raise Violation("CREATE TABLE by %s answers %d: %s" % (form, status, short(sql)))
    parse(text, sql)


def check_schema(c, p, src, tables, dead):
    status, text = c.h.request("GET", "/jdbc_query/schema/%d" % src["id"])
    if status != 200:
        raise Violation("schema of data source %d: %d" % (src["id"], status))
    out = parse(text, "schema")
    if src["db"] is None:
        if out:
            raise Violation("a data source without MySQL has the schema %s" % short(out))
        return
    got = {}
    for t in out:
        if t["name"] in got:
            raise Violation("table %s is listed twice" % t["name"])
        got[t["name"]] = [(x["name"], x["javaType"]) for x in t["columns"]]
    want = {s["table"]: s for s in tables if s["db"] == src["db"]}
    if set(got) != set(want):
        raise Violation("the schema lists %s, there are %s" % (sorted(got), sorted(want)))
    for t, s in want.items():
        names = [x["name"] + (" *" if x["enc"] else "") for x in s["cols"]]
        if [n for n, _ in got[t]] != names:
            raise Violation("the schema of %s lists %s, the table has %s" % (t, [n for n, _ in got[t]], names))
        for (n, j), x in zip(got[t], s["cols"]):
            k = x["type"][0]
            if k in ("int", "varchar") and j != {"int": "INTEGER", "varchar": "VARCHAR"}[k]:
                raise Violation("the schema presents %s of type %s as %s" % (n, k, j))


def run(case, note):
    p = e2e.Pair(dbs=tuple(DBS))
    from vlib import httpd
    s = p.w.meta_server.session(p.w.meta_db)
    for src in case["sources"]:
        url = "jdbc:mysql://%s:%s/%s" % (p.w.server.host, p.w.server.port, src["db"]) if src["db"] else "jdbc:h2:mem"
        s.execute("INSERT INTO p_datasource (id, name, username, password, connection_url, driver_class_name, ping) VALUES "
                  "(%d, 'src%d', '%s', '%s', '%s', 'com.mysql.cj.jdbc.Driver', 'SELECT 1')" % (
                      src["id"], src["id"], p.w.user, p.w.password, url))
    s.commit()
    h = httpd.Service()
    try:
        history_of(case, note, p, Client(p, h, case["sources"]))
    finally:
        h.close()


def history_of(case, note, p, c):
    answered = refused = False
    live = []
    for op in case["ops"]:
        k = op[0]
        if k == "schema":
            check_schema(c, p, case["sources"][op[1]], live, None)
            note.label("schema_%d_tables" % min(3, len(live)))
            continue
        if k == "junk":
            status, text = c.h.request("POST", op[1], op[2].encode("utf8"), {"Content-Type": "application/json"})
            note.label("junk_%d" % status)
            if status == 200 and op[1] in ("/query", "/jdbc_query", "/create_table", "/query_jar"):
                raise Violation("%s answers %s for the body %r" % (op[1], short(text), op[2]))
            continue
        s = case["schemas"][op[1]]
        db = s["db"]
        if k == "create":
            create(c, p, s, op[2])
            live.append(s)
            note.label("create_" + op[2])
        elif k in ("insert", "update", "delete"):
            sql = op[3]
            try:
                p.refexec(sql, db)
            except minisql.SqlError:
                p.ref[db].rollback()
                status, text = c.raw(op[2], db, sql)
                if status == 200 and not (isinstance(parse(text, sql), dict) and parse(text, sql).get("error")):
                    raise Violation("answers %s for a statement the server must refuse: %s" % (short(text), short(sql)))
                refused = True
                continue
            _, _, rows = c.run(op[2], db, sql)
            if rows:
                raise Violation("rows %s for %s" % (short(rows), short(sql)))
            note.label(k + "_" + op[2])
        elif k in ("select", "nested"):
            end = op[2]
            if k == "nested":
                sel = {"cols": op[3], "case": "upper"}
                sql = gen.select_sql(s, sel, table="(SELECT * FROM %s) zz" % gen.q(s["table"]))
                ciphertext = False
            else:
                sel = op[3]
                sql = gen.select_sql(s, sel)
                ciphertext = op[4]
            want = [tuple(r) for r in p.refexec(sql, db)[1]]
            names, types, got = c.run(end, db, sql, ciphertext)
            note.label(k + "_" + end, "ciphertext" if ciphertext else "plaintext")
            if ciphertext:
                if len(got) != len(want):
                    raise Violation("%d encrypted rows for %s, plaintext %d" % (len(got), short(sql), len(want)))
            else:
                e2e.check_answer(p, s, sel, sql, got, want, db)
            if names is not None and "aggs" not in sel:
                ids = range(len(s["cols"])) if sel["cols"] == "*" else sel["cols"]
                check_columns(end, [s["cols"][i]["name"] for i in ids], [s["cols"][i]["type"][0] for i in ids], names, types, sql)
                if got and any(s["cols"][i]["enc"] for i in ids):
                    answered = True
            elif names is not None and len(names) != len(sel["aggs"]):
                raise Violation("columns %s for %s" % (names, short(sql)))
        elif k == "bad":
            sql = op[3].replace("{t}", gen.q(s["table"]))
            if op[4]:
                sql = "SELECT * FROM " + gen.q(s["table"])
                if op[4] == "source" and op[2] != "jdbc":
                    continue
            elif sql == "show tables" or "{" in sql:
                pass
            before = len(p.w.server.log)
            status, text = c.raw(op[2], db, sql, spoil=op[4])
            if status == 200 and not (parse(text, sql) and "error" in parse(text, sql) and parse(text, sql)["error"]):
                raise Violation("answers 200 %s for %r%s" % (short(text), sql, " with a wrong " + op[4] if op[4] else ""))
            refused = True
            note.label("refused_" + (op[4] or "statement"))
        elif k == "convert":
            sel = op[2]
            sql = gen.select_sql(s, sel)
            texts = []
            for path, body, f in (
                    ("/rewrite_query", {"query": sql, "db": db}, lambda t: t),
                    ("/encrypt_sql", {"sqlQuery": sql, "jdbcDataSourceId": c.source(db)}, lambda t: json.loads(t)["encrypt_sql"]),
                    ("/encrypt_sql1", {"sql": sql, "db": db}, lambda t: json.loads(t)["encrypt_sql"]),
                    ("/encrypt_sql2", {"sql": sql, "db": db}, lambda t: json.loads(t)["encrypt_sql"])):
                status, text = c.h.post(path, body)
                if status != 200:
                    raise Violation("%s answers %d for %s" % (path, status, short(sql)))
                texts.append(f(text))
                last = text
            if len(set(texts)) != 1:
                raise Violation("the converting endpoints disagree about %s: %s" % (short(sql), short(texts)))
            q = json.loads(last)
            rows = minisql.Session(p.w.backend(db)).execute(texts[0])[1]
            from checks.c23 import wire
            status, text = c.h.post("/decrypt_data", {"query_id": q["id"], "data": {"rows": [[wire(v) for v in r] for r in rows]}})
            if status != 200:
                raise Violation("/decrypt_data answers %d for %s" % (status, short(sql)))
            out = parse(text, sql)
            want = [tuple(r) for r in p.refexec(sql, db)[1]]
            if "data" not in out or out.get("query_id") != q["id"]:
                if not rows and out == {"result": ""}:
                    continue
                raise Violation("/decrypt_data answers %s for the rows of %s" % (short(out), short(sql)))
            got = [tuple(r) for r in out["data"]["rows"]]
            if len(got) != len(want) or "limit" not in sel and not e2e.multiset_equal(got, want):
                raise Violation("rows %s decrypted for %s, plaintext %s" % (short(got), short(sql), short(want)))
            note.label("converted")
    for s in live:
        _, _, got = c.run("query", s["db"], "SELECT * FROM " + gen.q(s["table"]))
        want = [tuple(r) for r in p.refexec("SELECT * FROM " + gen.q(s["table"]), s["db"])[1]]
        if not e2e.multiset_equal(got, want):
            raise Violation("at the end %s holds %s, plaintext %s" % (s["table"], short(got), short(want)))
    note.nontrivial(answered and refused)


SUBS = [Sub("history", history, run, quick=500, thorough=12000, shards=(8, 16))]
