"""Differential end-to-end execution: the proxy over its backend against a plaintext reference database."""
import datetime
import math
from decimal import Decimal

from . import gen, minisql
from .core import Violation, short
from .proxy import World

USER, PW = "u1", "pw1"


def norm(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Decimal):
        return int(v) if v == v.to_integral_value() else float(v)
    if isinstance(v, datetime.datetime):
        return v.strftime("%Y-%m-%d %H:%M:%S")
    if isinstance(v, datetime.date):
        return v.isoformat()
    if type(v) is minisql.Moment:
        return str(v)
    if isinstance(v, float) and v == 0:
        return 0.0
    return v


def same(a, b):
    """type-strict equality up to int/float/Decimal representation of equal numbers"""
    a, b = norm(a), norm(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a == b or math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-15)
    return type(a) is type(b) and a == b


def key(row):
    out = []
    for v in row:
        v = norm(v)
        if v is None:
            out.append((0, ""))
        elif isinstance(v, (int, float)):
            out.append((1, "%.9g" % v))
        else:
            out.append((2, str(v)))
    return tuple(out)


def sorted_rows(rows):
    return sorted(rows, key=key)


def rows_equal(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(map(same, x, y)) for x, y in zip(a, b))


def multiset_equal(a, b):
    if len(a) != len(b):
        return False
    if rows_equal(sorted_rows(a), sorted_rows(b)):
        return True
    left = list(b)
    for x in a:
        for k, y in enumerate(left):
            if len(x) == len(y) and all(map(same, x, y)):
                del left[k]
                break
        else:
            return False
    return True


def sub_multiset(a, b):
    left = list(b)
    for x in a:
        for k, y in enumerate(left):
            if len(x) == len(y) and all(map(same, x, y)):
                del left[k]
                break
        else:
            return False
    return True


class Pair:
    """a proxy world and the plaintext reference, fed with the same statements"""

    def __init__(self, dbs=("points",), store="mysql"):
        self.w = World(dbs=dbs, user=USER, password=PW, store=store)
        self.ref = {}
        for d in dbs:
            db = minisql.Database()
            self.ref[d] = minisql.Session(db)
        self.db = dbs[0]

    def refexec(self, sql, db=None):
        s = self.ref[db or self.db]
        out = s.execute(sql)
        s.commit()
        return out

    def refexec_tentative(self, sql, db=None):
        """raises what the reference would raise; changes nothing (DROP: only checks the table)"""
        s = self.ref[db or self.db]
        if sql.startswith("DROP TABLE "):
            s.execute("SELECT 1 FROM " + sql[len("DROP TABLE "):])
            return
        try:
            s.execute(sql)
        finally:
            s.rollback()

    def create(self, schema, db=None, **kw):
        self.refexec(gen.create_sql(schema, reference=True, **kw), db)
        self.proxy(gen.create_sql(schema, **kw), encrypted=gen.encrypted_columns(schema), db=db)

    def proxy(self, sql, encrypted=None, db=None):
        try:
            return self.w.query(sql, encrypted=encrypted, db=db)
        except Exception as e:
            raise Violation("the proxy failed where a plaintext database succeeds: %s: %s\n  statement: %s" % (
                type(e).__name__, short(str(e), 300), short(sql, 500))) from e

    def try_proxy(self, sql, encrypted=None, db=None):
        """-> (rows, None) or (None, exception)"""
        try:
            return [tuple(x) for x in self.w.query(sql, encrypted=encrypted, db=db)["result"]], None
        except Exception as e:
            return None, e

    def write(self, sql, db=None):
        """run on both; the reference decides whether it must succeed. -> True if it did"""
        try:
            self.refexec(sql, db)
        except minisql.SqlError as e:
            s = self.ref[db or self.db]
            s.rollback()
            rows, err = self.try_proxy(sql, db=db)
            if err is None:
                raise Violation("accepted a statement a plaintext database refuses (%s): %s" % (e, short(sql, 500)))
            return False
        self.proxy(sql, db=db)
        return True

    def select(self, sql, db=None):
        return [tuple(r) for r in self.proxy(sql, db=db)["result"]], [tuple(r) for r in self.refexec(sql, db)[1]]

    def compare(self, schema, s, sql=None, db=None):
        """a generated select (gen.select) on both sides"""
        sql = sql or gen.select_sql(schema, s)
        got, want = self.select(sql, db)
        check_answer(self, schema, s, sql, got, want, db)
        return got

    def check_table(self, schema, what="table contents", db=None):
        got, want = self.select("SELECT * FROM " + gen.q(schema["table"]), db)
        if not multiset_equal(got, want):
            raise Violation("%s differ: proxy %s, plaintext %s" % (what, short(sorted_rows(got)), short(sorted_rows(want))))
        return want


def check_answer(pair, schema, s, sql, got, want, db=None):
    if "limit" in s and "order" not in s:
        full = dict(s)
        full.pop("limit")
        allrows = [tuple(r) for r in pair.refexec(gen.select_sql(schema, full), db)[1]]
        if len(got) != len(want) or not sub_multiset(got, allrows):
            raise Violation("LIMIT answer has wrong rows: %s, plaintext (any %d of) %s\n  statement: %s" % (
                short(got), len(want), short(allrows), sql))
        return
    if "order" in s:
        # compare the sort key sequences, and the rows with equal keys as multisets
        full = dict(s)
        full.pop("limit", None)
        oc = [i for i, _ in s["order"]]
        if s["cols"] == "*":
            pos = oc
        else:
            pos = [s["cols"].index(i) if i in s["cols"] else None for i in oc]
        if "limit" not in s:
            if not multiset_equal(got, want):
                raise Violation("wrong rows: %s, plaintext %s\n  statement: %s" % (short(got), short(want), sql))
        elif len(got) != len(want):
            raise Violation("wrong number of rows: %s, plaintext %s\n  statement: %s" % (short(got), short(want), sql))
        if all(p is not None for p in pos):
            kg = [tuple(r[p] for p in pos) for r in got]
            kw = [tuple(r[p] for p in pos) for r in want]
            if not rows_equal(kg, kw):
                raise Violation("wrong order: %s, plaintext %s\n  statement: %s" % (short(got), short(want), sql))
        if "limit" in s:
            allrows = [tuple(r) for r in pair.refexec(gen.select_sql(schema, full), db)[1]]
            if not sub_multiset(got, allrows):
                raise Violation("rows not in the table: %s, plaintext %s\n  statement: %s" % (short(got), short(allrows),
                                                                                         sql))
        if not s.get("distinct"):
            # hidden sort keys: add them to the select list and compare the whole sequence of keys
            vis = dict(s, cols=oc)
            vs = gen.select_sql(schema, vis)
            g2, w2 = pair.select(vs, db)
            if not rows_equal(g2, w2):
                raise Violation("wrong order: %s, plaintext %s\n  statement: %s" % (short(g2), short(w2), vs))
        return
    if not multiset_equal(got, want):
        raise Violation("wrong answer: %s, plaintext %s\n  statement: %s" % (short(got), short(want), sql))
