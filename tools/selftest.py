"""setup_cmd: checks that the harness works here (imports, stand-in database against sqlite3, stand-in driver)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
import sqlite3

from vlib import boot, minisql

boot.setup()
import hypothesis  # noqa: F401,E402

STATEMENTS = ["a + b * 2", "a - b - c", "a - (b - c)", "NOT a = b", "NOT (a = b AND c > 1)", "a = b OR b = c AND a < c",
              "a IS NULL", "a IS NOT NULL AND b >= 2", "a BETWEEN 1 AND 3", "a NOT BETWEEN b AND c", "a IN (1, 2)",
              "a NOT IN (1, NULL)", "-a * b", "COALESCE(a, b, 7)", "CASE WHEN a > b THEN 1 WHEN b > c THEN 2 ELSE 3 END",
              "a <> b", "(a > 1) = (b > 1)", "a * (b + c) - 1"]


def norm(row):
    return repr([None if v is None else float(v) for v in row])


def main():
    rnd = random.Random(5)
    db = minisql.Session(minisql.Database())
    lite = sqlite3.connect(":memory:")
    for ex in (db.execute, lite.execute):
        ex("CREATE TABLE t (a INT, b INT, c INT)")
    for _ in range(30):
        row = [rnd.choice([None, 0, 1, 2, 3, -1]) for _ in range(3)]
        sql = "INSERT INTO t VALUES (%s)" % ", ".join("NULL" if v is None else str(v) for v in row)
        db.execute(sql)
        lite.execute(sql)
    n = 0
    for e in STATEMENTS:
        for q in ("SELECT a, b, c, %s FROM t" % e, "SELECT a, b FROM t WHERE %s" % e,
                  "SELECT COUNT(*), MAX(a), MIN(b), SUM(c) FROM t WHERE %s" % e,
                  "SELECT DISTINCT a FROM t WHERE %s ORDER BY a DESC LIMIT 2" % e):
            x = sorted(map(norm, db.execute(q)[1]))
            y = sorted(map(norm, lite.execute(q).fetchall()))
            if x != y:
                print("stand-in database disagrees with sqlite on", q, x[:5], y[:5])
                return 1
            n += 1
    print("selftest: %d queries agree" % n)
    return 0


if __name__ == "__main__":
    sys.exit(main())
