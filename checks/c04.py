"""C04: the backend never sees plaintext, names or keys of encrypted columns."""
import re

from hypothesis import strategies as st

from checks.c02 import TEMPLATES
from vlib import e2e, gen
from vlib.core import Sub, Violation, short

PROPERTY = "C04"
TECHNIQUE = "property-based testing: generated statements with marked secrets, scan of everything the backend receives and stores"
LEVEL_NOTE = ("Every secret (names, keys, texts, search words) carries a marker that no ciphertext can contain; all SQL and "
              "parameters received by the backend and all its stored names, defaults and values are scanned for it. "
              "Numbers are checked only where they are compared by equality (see the known finding).")
RULE = "at least one statement naming a secret value, or refused by the proxy, was issued and the backend log scanned"
ASSUMPTIONS = ["metadata database not covered (it must hold the names and keys)",
               "the order-preserving form of numbers is the number itself (known finding), so numbers are scanned for only in "
               "statements that use no order-preserving form"]

MARKS = ["zqtab_", "zqenc_", "zqkey_", "zqv-", "908070605040"]


def mark(s):
    return s.map(lambda t: "zqv-" + t)


def text_for(c):
    n = c["type"][1] - 4
    return mark(gen.texts(min(n, 40)))


@st.composite
def case(draw):
    ncol = draw(st.integers(2, 4))
    cols = []
    for i in range(ncol):
        enc = i == 0 or draw(st.integers(0, 3)) > 0
        c = draw(gen.column("zqenc_%d" % i if enc else "plain%d" % i, enc,
                            kinds=["varchar", "varchar", "char", "int", "float"],
                            plain_kinds=["int", "varchar", "text", "double"], defaults=False))
        if c["type"][0] in ("varchar", "char"):
            c["type"][1] = max(c["type"][1], 12)
        c.pop("comment", None)
        if enc:
            c["enc"]["key"] = "zqkey_" + c["enc"]["key"]
            if "sm4_key" in c["enc"]:
                c["enc"]["sm4_key"] = "zqkey_" + c["enc"]["sm4_key"]
            if draw(st.integers(0, 5)) == 0 and c["type"][0] in ("varchar", "char"):
                c["default"] = draw(text_for(c))
        cols.append(c)
    if draw(st.integers(0, 3)) == 0 and cols[0]["type"][0] in ("int", "varchar", "char") and "default" not in cols[0]:
        cols[0]["pk"] = True
        cols[0].pop("null", None)
    s = {"table": "zqtab_%d" % draw(st.integers(0, 9)), "cols": cols}

    def value(c):
        if c["enc"] and c["type"][0] in ("varchar", "char"):
            return draw(text_for(c)).rstrip(" ") if c["type"][0] == "char" else draw(text_for(c))
        return draw(gen.values(c))
    rows = [[None if not c.get("notnull") and not c.get("pk") and draw(st.integers(0, 9)) == 0 else value(c)
             for c in cols] for _ in range(draw(st.integers(1, 3)))]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        kind = draw(st.sampled_from(["template"] * 4 + ["select"] * 3 + ["update", "update", "delete", "like", "like",
                                                                         "setexpr", "insertodd", "sum", "alter", "ddl", "numtext"]))
        i = draw(st.integers(0, ncol - 1))
        c = cols[i]
        if kind == "template":
            d = draw(st.sampled_from([j for j in range(ncol) if j != i]))
            a = draw(st.integers(0, ncol - 1))
            text = ("zqv-abcdef%d" if c["enc"] else "abcdef%d") % draw(st.integers(0, 99))
            ops.append({"op": "sql", "sql": draw(st.sampled_from(TEMPLATES)).format(
                t=gen.q(s["table"]), a=gen.q(cols[a]["name"]), c=gen.q(c["name"]), d=gen.q(cols[d]["name"]),
                v=gen.lit(value(c)), v2=gen.lit(value(c)), w=gen.lit(value(cols[d])), like=gen.lit("%" + text + "%"),
                badtype=gen.lit("zqv-x" if c["enc"] else 7))})
        elif kind == "select":
            sel = draw(gen.select(s, rows))
            ops.append({"op": "sql", "sql": gen.select_sql(s, sel)})
        elif kind == "update":
            v = None if not c.get("notnull") and not c.get("pk") and draw(st.integers(0, 5)) == 0 else value(c)
            sql = "UPDATE %s SET %s = %s" % (gen.q(s["table"]), gen.q(c["name"]), gen.lit(v))
            if draw(st.booleans()):
                sql += " WHERE " + gen.cond_sql(s, draw(gen.cond(s, rows, 1)))
            ops.append({"op": "sql", "sql": sql})
        elif kind == "numtext":         # a number where the column holds text
            if not c["enc"] or c["type"][0] not in ("varchar", "char"):
                continue
            e = draw(st.sampled_from(["{c} LIKE {n}", "{c} LIKE {n}", "{c} = {n}", "NOT {c} LIKE {n}", "{n} = {c}",
                                      "{c} NOT LIKE {n}", "{c} <> {n} OR {c} LIKE {n}", "{c} IN ({n}, 1)",
                                      "{c} BETWEEN {n} AND {n}", "{c} < {n}"]))
            n = "%s908070605040%s" % (draw(st.sampled_from(["", "", "-"])), draw(st.sampled_from(["", "7", "123", ".5"])))
            ops.append({"op": "sql", "sql": draw(st.sampled_from(["SELECT * FROM {t} WHERE " + e, "DELETE FROM {t} WHERE " + e,
                                                                  "UPDATE {t} SET {c} = {n} WHERE " + e,
                                                                  "INSERT INTO {t} ({c}) VALUES ({n})"])).format(
                t=gen.q(s["table"]), c=gen.q(c["name"]), n=n)})
        elif kind == "delete":
            ops.append({"op": "sql", "sql": "DELETE FROM %s WHERE %s" % (
                gen.q(s["table"]), gen.cond_sql(s, draw(gen.cond(s, rows, 1))))})
        elif kind == "like":
            v = value(c)
            v = v if isinstance(v, str) else "zqv-12345" if c["enc"] else "12345"
            k = draw(st.integers(4, 12))
            pat = draw(st.sampled_from(["%" + v[:k] + "%", v[:k] + "%", "%" + v, "%" + v[:5] + "%" + v[-5:] + "%", v]))
            ops.append({"op": "sql", "sql": "SELECT * FROM %s WHERE %s LIKE %s" % (
                gen.q(s["table"]), gen.q(c["name"]), gen.lit(pat))})
        elif kind == "setexpr":
            e = draw(st.sampled_from(["{o}", "{o} + 1", "CONCAT({o}, {v})", "UPPER({v})", "(SELECT {o} FROM {t})",
                                      "CASE WHEN {o} = {v} THEN {v} ELSE {o} END", "DEFAULT"]))
            o = cols[draw(st.integers(0, ncol - 1))]
            ops.append({"op": "sql", "sql": "UPDATE %s SET %s = %s" % (gen.q(s["table"]), gen.q(c["name"]), e.format(
                o=gen.q(o["name"]), v=gen.lit(value(o if "{o}" in e else c)), t=gen.q(s["table"])))})
        elif kind == "insertodd":
            head = "INSERT INTO %s " % gen.q(s["table"])
            names = ", ".join(gen.q(x["name"]) for x in cols)
            vals = ", ".join(gen.lit(value(x)) for x in cols)
            more = vals.split(", ", 1)[0]
            ops.append({"op": "sql", "sql": draw(st.sampled_from([
                head + "(%s) SELECT %s FROM %s" % (names, names, gen.q(s["table"])),
                head + "(%s) VALUES (%s)" % (names, vals + ", " + more),
                head + "(%s) VALUES (%s)" % (names + ", nosuch", vals + ", " + more),
                head + "VALUES (%s, %s)" % (vals, more),
                head + "SET " + ", ".join("%s = %s" % (gen.q(x["name"]), gen.lit(value(x))) for x in cols),
                "REPLACE INTO %s (%s) VALUES (%s)" % (gen.q(s["table"]), names, vals),
                head + "(%s) VALUES (%s) ON DUPLICATE KEY UPDATE %s = %s" % (
                    names, vals, gen.q(c["name"]), gen.lit(value(c))),
                head + "(%s) VALUES (UPPER(%s))" % (gen.q(c["name"]), gen.lit(value(c))),
            ]))})
        elif kind == "sum":
            f = draw(st.sampled_from(["SUM", "AVG", "MAX", "MIN"]))
            ops.append({"op": "sql", "sql": "SELECT %s(%s) FROM %s WHERE %s" % (
                f, gen.q(c["name"]), gen.q(s["table"]), gen.cond_sql(s, draw(gen.cond(s, rows, 0))))})
        elif kind == "alter":
            ops.append({"op": "sql", "sql": "ALTER TABLE %s %s" % (gen.q(s["table"]), draw(st.sampled_from([
                "ADD PRIMARY KEY (%s)", "ADD INDEX zi (%s)", "DROP COLUMN %s", "ADD COLUMN %s INT", "ADD UNIQUE (%s)",
                "MODIFY %s INT", "ADD UNIQUE KEY u1 (%s)"])) % gen.q(c["name"]))})
        else:
            ops.append({"op": "sql", "sql": draw(st.sampled_from([
                "TRUNCATE TABLE {t}", "DESCRIBE {t}", "SHOW COLUMNS FROM {t}", "EXPLAIN SELECT {c} FROM {t}",
                "CREATE INDEX zi ON {t} ({c})", "CREATE TABLE zz AS SELECT {c} FROM {t}",
                "CREATE VIEW vv AS SELECT {c} FROM {t}", "RENAME TABLE {t} TO x", "LOCK TABLES {t} READ",
                "WITH w AS (SELECT {c} FROM {t}) SELECT * FROM w", "CALL p({v})", "SET @a = {v}",
                "SELECT {c} INTO OUTFILE 'x' FROM {t}", "SELECT 1", "SELECT {v}", "DROP TABLE nosuch, {t}",
                "DROP TABLE IF EXISTS zqtab_none"])).format(
                    t=gen.q(s["table"]), c=gen.q(c["name"]), v=gen.lit(value(c)))})
    return {"schema": s, "rows": rows, "ops": ops, "drop": draw(st.booleans())}


def leak(text, marks=MARKS):
    low = text.lower()
    for m in marks:
        if m in low:
            return m
    return None


def scan(w, seen, what):
    """new statements in the backend's log; returns the new position"""
    log = w.sent()
    for sql in log[seen:]:
        m = leak(sql)
        if m:
            k = sql.lower().index(m)
            raise Violation("the backend received %r while the client asked for %s\n  sent: %s" % (
                sql[max(0, k - 5):k + 20], short(what, 400), short(sql, 600)))
    return len(log)


def scan_stored(w, what):
    for name, t in w.backend().tables.items():
        for text in [name] + [repr(c) for c in t.cols] + [repr(v) for r in t.rows for v in r]:
            m = leak(text)
            if m:
                raise Violation("the backend stores %r after %s: %s" % (m, short(what, 400), short(text, 300)))


def numbers_of(schema, sql):
    """numeric literals of the statement"""
    return [x for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?![\w.])", re.sub(r"'(?:''|\\.|[^'\\])*'", "", sql))
            if len(x.strip("-").replace(".", "")) >= 5]


def run(case, note):
    s = case["schema"]
    p = e2e.Pair()
    seen = 0
    sql = gen.create_sql(s)
    p.proxy(sql, encrypted=gen.encrypted_columns(s))
    seen = scan(p.w, seen, sql)
    for r in case["rows"]:
        sql = gen.insert_sql(s, [r])
        rows, err = p.try_proxy(sql)
        note.label("insert_" + ("ok" if err is None else "refused"))
        seen = scan(p.w, seen, sql)
    scan_stored(p.w, "INSERT")
    primes = [str(x) for c in s["cols"] if c["enc"] for x in c["enc"].get("homomorphic_key", [])]
    for o in case["ops"]:
        sql = o["sql"]
        rows, err = p.try_proxy(sql)
        note.label("statement_" + ("answered" if err is None else "refused"))
        start = seen
        seen = scan(p.w, seen, sql)
        eqonly = re.match(r"(SELECT|DELETE)", sql) and not re.search(r"[<>]|ORDER|MAX|MIN|BETWEEN", sql.replace("<>", ""))
        nums = numbers_of(s, sql) if eqonly and all(c["enc"] for c in s["cols"]) else []
        for q in p.w.sent()[start:]:
            toks = set(re.findall(r"-?\d+(?:\.\d+)?", re.sub(r"'[^']*'", "", q)))
            for n in nums + primes:
                if n in toks:
                    raise Violation("the backend received the number %s of %s: %s" % (n, short(sql, 300), short(q, 500)))
        note.nontrivial(leak(sql) is not None)
    scan_stored(p.w, "the statements")
    if case["drop"]:
        sql = "DROP TABLE " + gen.q(s["table"])
        p.try_proxy(sql)
        scan(p.w, seen, sql)


# ------------------------------------------------------------------ numbers (known finding only)
def run_numbers(case, note):
    s = {"table": "t", "cols": [{"name": "a", "type": [case["type"]], "enc": {"key": "k", "fuzzy": False}}]}
    p = e2e.Pair()
    p.create(s)
    p.write("INSERT INTO t (a) VALUES (%s)" % case["value"])
    for t in p.w.backend().tables.values():
        for r in t.rows:
            for v in r:
                if str(v) == str(case["value"]):
                    raise Violation("the backend stores the number %s as it is (order-preserving form)" % v)


def no_cases():
    return st.nothing()


SUBS = [Sub("secrets", case, run, quick=700, thorough=15000, shards=(8, 16)),
        Sub("numbers", no_cases, run_numbers, quick=0, thorough=0)]
