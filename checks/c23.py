"""C23: a converted query's identifier decrypts that query's rows, and nothing else does."""
import json
from decimal import Decimal

from hypothesis import strategies as st

from vlib import boot, e2e, gen, minisql, proxy, sched
from vlib.core import Sub, Violation, short

PROPERTY = "C23"
TECHNIQUE = ("model-based property testing: generated histories of conversions, executions and decryptions in any order over "
             "several tables and databases, compared with a plaintext database; conversions under generated thread schedules")
LEVEL_NOTE = ("The client's part (running the converted query on the server and sending the rows back as JSON) is played by the "
              "checker on the simulated server.")
RULE = "an identifier was used after another query had been converted or decrypted"
ASSUMPTIONS = ["the tables of a query are not dropped or recreated between its conversion and the decryption of its rows"]
BUDGET = {"quick": 60, "thorough": 900}
DBS = ["points", "other"]


@st.composite
def histories(draw, many=False):
    dbs = DBS[:draw(st.integers(1, 2))]
    schemas, seen = [], set()
    names = draw(st.permutations(gen.TABLES))[:2]
    cols = draw(st.permutations(gen.NAMES))[:4]
    for _ in range(draw(st.integers(1, 4))):
        # the same names of tables and columns in different databases, with other types and keys
        s = draw(gen.schema(table=draw(st.sampled_from(names)), names=cols, max_cols=4, key=False, defaults=False,
                            plain_kinds=["int", "varchar", "text", "datetime"]))
        s["db"] = draw(st.sampled_from(dbs))
        if (s["db"], s["table"].lower()) in seen:
            continue
        seen.add((s["db"], s["table"].lower()))
        s["rows"] = draw(gen.rows(s, 1, 5))
        schemas.append(s)
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(["convert", "convert", "convert", "decrypt", "decrypt", "decrypt", "part", "bad", "unknown",
                                  "insert", "query", "fail"]))
        i = draw(st.integers(0, len(schemas) - 1))
        if k in ("convert", "query"):
            ops.append([k, i, draw(gen.select(schemas[i], schemas[i]["rows"]))])
        elif k == "bad":
            ops.append([k, i, draw(st.sampled_from(["selec * from {t}", "select * from missing", "select nope from {t}",
                                                    "drop", "", "select * from", "select @@version_comment limit 1"]))])
        elif k == "insert":
            ops.append([k, i, draw(gen.row(schemas[i], schemas[i]["rows"]))])
        elif k == "unknown":
            ops.append([k, i, draw(st.sampled_from(["", "0", "-1", "x", "9" * 20, None]))])
        else:
            ops.append([k, i, draw(st.integers(0, 20))])
    if many:
        # some queries converted first, then very many others, then the rows of the first ones
        i = draw(st.integers(0, len(schemas) - 1))
        first = [["convert", j, draw(gen.select(schemas[j], schemas[j]["rows"]))]
                 for j in draw(st.lists(st.integers(0, len(schemas) - 1), min_size=1, max_size=3))]
        ops = first + [["many", i, draw(st.sampled_from([20, 150, 700]))]] + [["decrypt", i, n] for n in range(len(first))] + ops[:3]
    return {"dbs": list(dbs), "schemas": schemas, "ops": ops}


def wire(v):
    """a value as the client sends it back"""
    if isinstance(v, Decimal):
        return int(v) if v == v.to_integral_value() else float(v)
    if hasattr(v, "strftime"):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    return v


def run(case, note):
    p = e2e.Pair(dbs=tuple(case["dbs"]))
    ctl = p.w.controller()
    for s in case["schemas"]:
        p.create(s, db=s["db"])
        for r in s["rows"]:
            p.write(gen.insert_sql(s, [r]), db=s["db"])
    open_ = []          # converted queries: id, schema, select, sql, encrypted rows, what the rows are
    ids = set()
    last = None

    def decrypt(q, rows):
        data = json.loads(json.dumps({"data": {"rows": [[wire(v) for v in r] for r in rows]}, "query_id": q["id"]}))
        return ctl.ControllerDecrypt(data).do_convert()

    for k, i, x in case["ops"]:
        s = case["schemas"][i]
        if k == "convert":
            sql = gen.select_sql(s, x)
            out = ctl.ControllerEncryptSql2({"sql": sql, "db": s["db"]}).do_convert()
            if "id" not in out:
                raise Violation("not converted: %s" % sql)
            if out["id"] in ids:
                raise Violation("the identifier %s is given twice" % out["id"])
            ids.add(out["id"])
            session = minisql.Session(p.w.backend(s["db"]))
            try:
                rows = session.execute(out["encrypt_sql"])[1]
            except minisql.SqlError as e:
                raise Violation("the converted query fails on the server: %s\n  %s\n  %s" % (e, sql, short(out["encrypt_sql"])))
            plain = [tuple(r) for r in p.refexec(sql, s["db"])[1]]
            open_.append({"id": out["id"], "s": s, "sel": x, "sql": sql, "rows": [tuple(r) for r in rows], "want": plain})
            if "limit" in x:
                full = dict(x)
                full.pop("limit")
                open_[-1]["all"] = [tuple(r) for r in p.refexec(gen.select_sql(s, full), s["db"])[1]]
            last = out["id"]
        elif k in ("decrypt", "part"):
            if not open_:
                continue
            q = open_[x % len(open_)]
            if last != q["id"]:
                note.nontrivial()
            last = None
            rows = q["rows"] if k == "decrypt" else q["rows"][:1 + x % 2]
            out = decrypt(q, rows)
            if out.get("query_id") != q["id"] or "data" not in out:
                raise Violation("rows of %s are not decrypted: %s" % (q["sql"], short(out)))
            got = [tuple(r) for r in out["data"]["rows"]]
            cols = q["s"]["cols"]
            names = [c["name"] for c in cols] if q["sel"].get("cols") == "*" else \
                [cols[j]["name"] for j in q["sel"]["cols"]] if "cols" in q["sel"] else None
            if names is not None and list(out["data"]["columns"]) != names:
                raise Violation("columns %s for %s" % (out["data"]["columns"], q["sql"]))
            if k == "part":
                if len(got) != len(rows) or not ("limit" in q["sel"] or e2e.sub_multiset(got, q["want"])):
                    raise Violation("rows %s decrypted for %s, plaintext %s" % (short(got), q["sql"], short(q["want"])))
            elif "limit" in q["sel"]:
                if len(got) != len(q["want"]):
                    raise Violation("%d rows decrypted for %s, plaintext %d" % (len(got), q["sql"], len(q["want"])))
                if not e2e.sub_multiset(got, q["all"]):
                    raise Violation("rows %s decrypted for %s, plaintext (some of) %s" % (
                        short(got), q["sql"], short(q["all"])))
            elif not e2e.multiset_equal(got, q["want"]):
                raise Violation("rows %s decrypted for %s, plaintext %s" % (short(got), q["sql"], short(q["want"])))
        elif k == "bad":
            sql = x.replace("{t}", gen.q(s["table"]))
            out = ctl.ControllerEncryptSql2({"sql": sql, "db": s["db"]}).do_convert()
            if out.get("encrypt_sql") != sql or "id" in out:
                raise Violation("%r can not be converted, but the answer is %s" % (sql, short(out)))
            last = None
        elif k == "unknown":
            bad = str(x)
            if bad in ids:
                continue
            rows = open_[-1]["rows"] if open_ else [["x"]]
            out = decrypt({"id": x}, rows)
            if out != {"result": ""}:
                raise Violation("the unknown identifier %r decrypts %s" % (x, short(out)))
            last = None
        elif k == "fail":
            # rows that are not of this query: refused or nothing, and later decryptions are as before
            if open_:
                q = open_[x % len(open_)]
                decrypt(q, [["!!not a ciphertext", "@@", 1, None, "x"]])
                last = None
        elif k == "many":
            for _ in range(x):
                out = ctl.ControllerEncryptSql2({"sql": "select %s from %s" % (gen.q(s["cols"][0]["name"]), gen.q(s["table"])),
                                                 "db": s["db"]}).do_convert()
                if "id" not in out or out["id"] in ids:
                    raise Violation("the identifier is %r, given before: %s" % (out.get("id"), out.get("id") in ids))
                ids.add(out["id"])
            last = None
        elif k == "query":
            p.try_proxy(gen.select_sql(s, x), db=s["db"])
            last = None
        elif k == "insert":
            p.write(gen.insert_sql(s, [x]), db=s["db"])
            last = None


# ---- conversions of several threads

@st.composite
def programs(draw):
    n = draw(st.integers(2, 3))
    keys = draw(st.permutations(["k1", "k2", "k3"]))
    progs = [[draw(st.sampled_from(["a", "b"])) for _ in range(draw(st.integers(1, 2)))] for _ in range(n)]
    sch = draw(st.lists(st.tuples(st.integers(1, draw(st.sampled_from([3, 30, 300]))), st.integers(0, 2)), max_size=12))
    return {"keys": list(keys), "threads": progs, "schedule": [list(x) for x in sch]}


def threads(case, note):
    w = proxy.World(dbs=("points",), user=e2e.USER, password=e2e.PW)
    ctl = w.controller()
    for i, key in enumerate(case["keys"]):
        w.query("create table t%d (a varchar(20), b varchar(20))" % i, encrypted={
            "a": {"key": key, "fuzzy": False}, "b": {"key": key + "x", "fuzzy": False}})
        w.query("insert into t%d(a, b) values ('a%d', 'b%d')" % (i, i, i))
    out = {}

    def body(i, cols):
        def f():
            got = []
            for c in cols:
                o = ctl.ControllerEncryptSql2({"sql": "select %s from t%d" % (c, i), "db": "points"}).do_convert()
                rows = minisql.Session(w.backend("points")).execute(o["encrypt_sql"])[1]
                d = ctl.ControllerDecrypt({"data": {"rows": [[wire(v) for v in r] for r in rows]},
                                           "query_id": o["id"]}).do_convert()
                got.append((c, o["id"], d.get("data")))
            out[i] = got
        return f
    s = sched.Sched(case["schedule"], (boot.REPO + "/scheduler/backend", boot.REPO + "/controller",
                                       boot.REPO + "/scheduler/handers"))
    res = s.run([body(i, c) for i, c in enumerate(case["threads"])])
    for kind, e in res:
        if kind == "error":
            if isinstance(e, Exception):
                raise e
            raise Violation("thread ended with %r" % (e,))
    if s.switches > 2:
        note.nontrivial()
    ids = [x[1] for g in out.values() for x in g]
    if len(set(ids)) != len(ids):
        raise Violation("identifiers given twice: %s" % ids)
    for i, got in out.items():
        for c, _, d in got:
            if not d or d["rows"] != [["%s%d" % (c, i)]]:
                raise Violation("select %s from t%d decrypts as %s" % (c, i, d))


SUBS = [
    Sub("history", histories, run, quick=500, thorough=20000, shards=(8, 16)),
    Sub("kept", lambda: histories(True), run, quick=40, thorough=1000, shards=(8, 16), case_timeout=60),
    Sub("threads", programs, threads, quick=160, thorough=6000, shards=(4, 8)),
]
