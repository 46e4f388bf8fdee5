"""C13: a formatted statement means the same as the statement it was parsed from."""
import sqlite3

from hypothesis import strategies as st

from vlib import sqlgen
from vlib.core import Sub, Violation, short

PROPERTY = "C13"
TECHNIQUE = "differential testing: generated statements and their formatted form executed on equal SQLite databases"
LEVEL_NOTE = ("Meaning is judged by SQLite on small tables with NULLs, negative numbers and special strings; statements "
              "the parser refuses are counted and left out.")
RULE = "the parser accepted the statement and SQLite executed it"
ASSUMPTIONS = ["every operator the dialects group differently is parenthesised in the generated text",
               "backslashes in strings are left to C16: SQLite does not know MySQL's escapes"]


def database():
    con = sqlite3.connect(":memory:", isolation_level=None)
    con.create_function("concat", -1, lambda *a: None if None in a else "".join(map(str, a)), deterministic=True)
    sqlgen.fill(con)
    return con


def execute(sql):
    """(rows, tables)"""
    con = database()
    try:
        rows = con.execute(sql).fetchall()
        return rows, {t: con.execute("SELECT * FROM " + t).fetchall() for t in sqlgen.TABLES}
    finally:
        con.close()


def canon(x):
    if isinstance(x, float):
        return ("f", float("%.12g" % x))
    return (type(x).__name__, x)


def key(rows):
    return [tuple(canon(x) for x in r) for r in rows]


def same(sql, got, want):
    ordered = "ORDER BY" in sql.upper()
    a, b = key(got[0]), key(want[0])
    if ordered is False:
        a, b = sorted(a, key=repr), sorted(b, key=repr)
    return a == b and all(key(got[1][t]) == key(want[1][t]) for t in want[1])


def run(case, note):
    import sql_parsing as P
    parse = P.parse if case["profile"] == "sqlite-ansi" else P.parse_mysql
    kw = {} if case["profile"] == "sqlite-ansi" else {"ansi_quotes": False}
    sql = case["sql"]
    try:
        want = execute(sql)
    except sqlite3.Error as e:
        note.excluded("not valid on SQLite: " + str(e)[:40])
        return
    try:
        tree = parse(sql)
    except Exception:
        note.excluded("refused by the parser")
        return
    text = P.format(tree, **kw)
    try:
        got = execute(text)
    except sqlite3.Error as e:
        raise Violation("%s\nis formatted as\n%s\nwhich fails: %s" % (sql, text, e))
    if not same(sql, got, want):
        raise Violation("%s\ngives %s, but it is formatted as\n%s\ngiving %s" % (
            sql, short(repr(want[0] or want[1]), 300), text, short(repr(got[0] or got[1]), 300)))
    note.nontrivial()
    note.label(*case["uses"])


SUBS = [Sub("ansi", lambda: sqlgen.statements("sqlite-ansi"), run, quick=1500, thorough=60000, shards=(8, 16)),
        Sub("mysql", lambda: sqlgen.statements("sqlite-mysql"), run, quick=1500, thorough=60000, shards=(8, 16))]
