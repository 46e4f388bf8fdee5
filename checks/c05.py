"""C05: SUM and AVG over homomorphically encrypted columns are exact."""
from decimal import Decimal

from hypothesis import strategies as st

from vlib import e2e, gen
from vlib.core import Sub, Violation, short

PROPERTY = "C05"
TECHNIQUE = ("stateful property-based testing: generated tables, writes and sums against exact arithmetic on the plaintext, "
             "with lost connections and other requests injected between the statements of a sum")
LEVEL_NOTE = ("Generated histories through the real proxy over an in-memory MySQL stand-in which evaluates the user "
              "variables and DECIMAL products the proxy sends; trusts that stand-in's evaluation order of user variables.")
RULE = "a sum or average over at least two non-NULL encrypted values was answered"
ASSUMPTIONS = ["the sum after encoding stays below a third of the modulus", "floats have at most 12 decimals",
               "other requests run between, not inside, the backend's statements"]


def arith_column(draw, name):
    kind = draw(st.sampled_from(["int", "int", "float"]))
    enc = {"key": draw(gen.KEYS), "fuzzy": draw(st.booleans()) if kind == "int" else False, "arithmetic": True,
           "homomorphic_key": draw(st.sampled_from(gen.HOMO_KEYS)) if kind == "int" else gen.BIG}
    if draw(st.integers(0, 4)) == 0:
        enc["sm4"], enc["sm4_key"] = True, draw(gen.KEYS)
    c = {"name": name, "type": [kind], "enc": enc}
    if draw(st.integers(0, 2)) == 0:
        c["notnull"] = True
    return c


@st.composite
def schema(draw, table):
    names = [n for n in draw(st.permutations(gen.SAFE + ["order", "user id"]))]
    cols = [arith_column(draw, names.pop()) for _ in range(draw(st.integers(1, 2)))]
    for _ in range(draw(st.integers(0, 2))):
        cols.append(draw(gen.column(names.pop(), kinds=["int", "varchar", "float"],
                                    plain_kinds=["int", "varchar", "decimal"], defaults=False)))
    cols = draw(st.permutations(cols))
    return {"table": table, "cols": list(cols)}


@st.composite
def rows(draw, s, n):
    """many equal, opposite and extreme numbers"""
    data = draw(gen.rows(s, 0, min(n, 8)))
    if data and n > 8:
        data = data + [list(data[draw(st.integers(0, len(data) - 1))]) for _ in range(draw(st.integers(0, n - 8)))]
    for r in data:
        for i, c in enumerate(s["cols"]):
            if r[i] is not None and c["type"][0] in ("int", "float") and draw(st.integers(0, 3)) == 0:
                v = -r[i]
                if c["type"][0] != "int" or -2**31 <= v < 2**31:
                    r[i] = v
    return data


@st.composite
def query(draw, s, k, pool):
    ar = [i for i, c in enumerate(s["cols"]) if (c["enc"] or {}).get("arithmetic")]
    items = []
    for _ in range(draw(st.integers(1, 4))):
        f = draw(st.sampled_from(["sum", "sum", "sum", "avg", "avg", "count*", "max", "count", "psum"]))
        i = draw(st.sampled_from(ar))
        if f == "psum":
            pl = [j for j, c in enumerate(s["cols"]) if not c["enc"] and c["type"][0] == "int"]
            if not pl:
                f = "sum"
            else:
                i = draw(st.sampled_from(pl))
        items.append([f, i])
    o = {"op": "query", "s": k, "items": items, "case": draw(st.sampled_from(["upper", "lower", "Mixed"])),
         "qual": draw(st.integers(0, 3)) == 0}
    if draw(st.integers(0, 2)):
        o["where"] = draw(gen.cond(s, pool, depth=1))
    if draw(st.integers(0, 7)) == 0:
        o["tail"] = draw(st.sampled_from([" LIMIT 1", " LIMIT 5", " limit 3", ";"]))
    if draw(st.integers(0, 3)) == 0:
        o["inject"] = {"at": draw(st.integers(0, 8)), "kind": draw(st.sampled_from(["lost", "kill_before", "refused"]))}
    return o


@st.composite
def history(draw):
    nt = draw(st.integers(1, 2))
    names = draw(st.permutations(gen.TABLES))
    schemas = [draw(schema(names[t])) for t in range(nt)]
    ops, pools = [], [[] for _ in range(nt)]
    for t in range(nt):
        data = draw(rows(schemas[t], draw(st.sampled_from([4, 8, 8, 40]))))
        pools[t] = data
        if data:
            ops.append({"op": "insert", "s": t, "rows": data})
    for _ in range(draw(st.integers(1, 6))):
        t = draw(st.integers(0, nt - 1))
        s = schemas[t]
        kind = draw(st.sampled_from(["query"] * 6 + ["insert", "delete", "update", "restart"]))
        if kind == "query":
            o = draw(query(s, t, pools[t]))
            if "inject" not in o and draw(st.integers(0, 2)) == 0:
                u = draw(st.integers(0, nt - 1))
                o["nested"] = {"at": draw(st.integers(0, 8)), "q": draw(query(schemas[u], u, pools[u]))}
                o["nested"]["q"].pop("inject", None)
            ops.append(o)
        elif kind == "insert":
            data = draw(rows(s, 4))
            pools[t] = pools[t] + data
            if data:
                ops.append({"op": "insert", "s": t, "rows": data})
        elif kind == "delete":
            ops.append({"op": "delete", "s": t, "where": draw(gen.cond(s, pools[t], depth=0))})
        elif kind == "update":
            i = draw(st.sampled_from([i for i, c in enumerate(s["cols"]) if (c["enc"] or {}).get("arithmetic")]))
            ops.append({"op": "update", "s": t, "set": [i, draw(gen.values(s["cols"][i]))],
                        "where": draw(gen.cond(s, pools[t], depth=0))})
        else:
            ops.append({"op": "restart"})
    return {"schemas": schemas, "ops": ops}


FN = {"sum": "sum", "psum": "sum", "avg": "avg", "max": "max", "count": "count"}


def sql_of(s, o):
    kw = {"upper": str.upper, "lower": str.lower, "Mixed": str.capitalize}[o["case"]]
    parts = []
    for f, i in o["items"]:
        if f == "count*":
            parts.append(kw("count") + "(*)")
            continue
        n = gen.q(s["cols"][i]["name"])
        if o["qual"]:
            n = gen.q(s["table"]) + "." + n
        parts.append("%s(%s)" % (kw(FN[f]), n))
    w = " WHERE " + gen.cond_sql(s, o["where"]) if "where" in o else ""
    return "SELECT %s FROM %s%s%s" % (", ".join(parts), gen.q(s["table"]), w, o.get("tail", ""))


def expected(p, s, o):
    w = " WHERE " + gen.cond_sql(s, o["where"]) if "where" in o else ""
    data = [tuple(r) for r in p.refexec("SELECT * FROM " + gen.q(s["table"]) + w)[1]]
    out, big = [], 0
    for f, i in o["items"]:
        vals = [Decimal(repr(e2e.norm(r[i]))) for r in data if r[i] is not None] if f != "count*" else None
        if f == "count*":
            out.append(len(data))
        elif f == "count":
            out.append(len(vals))
        elif not vals:
            out.append(None)
        elif f in ("sum", "psum"):
            out.append(sum(vals))
        elif f == "max":
            out.append(max(vals))
        else:
            out.append(sum(vals) / len(vals))
        if f in ("sum", "avg"):
            big = max(big, len(vals))
    return out, big


def close(f, got, want):
    if want is None or got is None:
        return got is None and want is None
    if isinstance(got, bool) or not isinstance(got, (int, float, Decimal)):
        return False
    if isinstance(got, float) and got != got:
        return False
    d = abs(Decimal(repr(got) if isinstance(got, float) else got) - want)
    if f == "avg":
        return d <= Decimal("0.0000501") + abs(want) * Decimal("1e-12")
    return d <= abs(want) * Decimal("1e-12") + Decimal("1e-15") if isinstance(got, float) else d == 0


def check(p, s, o, note):
    """-> number of values summed; raises the proxy's exception"""
    sql = sql_of(s, o)
    ans = p.w.query(sql)
    got = [tuple(r) for r in ans["result"]]
    want, n = expected(p, s, o)
    if len(got) != 1 or len(got[0]) != len(want):
        raise Violation("%d row(s) %s answered, one row with %d values expected\n  statement: %s" % (
            len(got), short(got), len(want), sql))
    for (f, i), g, w in zip(o["items"], got[0], want):
        if not close(f, g, w):
            raise Violation("%s of column %s is %r, on plaintext %s\n  statement: %s" % (
                f, s["cols"][i]["name"], g, w, sql))
    note.label("rows_%s" % ("0" if n == 0 else "1" if n == 1 else "2_8" if n <= 8 else "9+"))
    return n


def run(case, note):
    p = e2e.Pair()
    for s in case["schemas"]:
        p.create(s)
    for o in case["ops"]:
        if o["op"] == "restart":
            p.w.restart()
            continue
        s = case["schemas"][o["s"]]
        if o["op"] == "insert":
            for k in range(0, len(o["rows"]), 8):
                p.write(gen.insert_sql(s, o["rows"][k:k + 8]))
            continue
        if o["op"] in ("delete", "update"):
            w = " WHERE " + gen.cond_sql(s, o["where"])
            if o["op"] == "delete":
                p.write("DELETE FROM " + gen.q(s["table"]) + w)
            else:
                p.write("UPDATE %s SET %s = %s%s" % (gen.q(s["table"]), gen.q(s["cols"][o["set"][0]]["name"]),
                                                     gen.lit(o["set"][1]), w))
            continue
        n = one_query(p, case, s, o, note)
        if n is not None and n >= 2:
            note.nontrivial()


def one_query(p, case, s, o, note):
    from mysql.connector import errors as E
    srv = p.w.server
    state = {"k": 0, "fired": False}

    def hook(conn, sql):
        if conn.dbname == p.w.meta_db or state["fired"]:
            return None
        spec = o.get("inject") or o["nested"]
        if state["k"] != spec["at"]:
            state["k"] += 1
            return None
        state["fired"] = True
        if "inject" in o:
            if spec["kind"] == "refused":
                return E.DatabaseError(errno=1205, msg="Lock wait timeout exceeded")
            if spec["kind"] == "kill_before":
                srv.kill_all()
            conn.session.rollback()
            conn.dead = True
            return E.OperationalError(errno=2013, msg="Lost connection to MySQL server during query")
        q = spec["q"]
        check(p, case["schemas"][q["s"]], q, note)
        note.label("request_inside_request")
        return None
    if "inject" in o or "nested" in o:
        srv.faults.append(hook)
    try:
        n = check(p, s, o, note)
    except Violation:
        raise
    except Exception as e:
        srv.faults.clear()
        if "inject" in o and state["fired"]:
            note.label("failed_under_fault")
            return None
        raise Violation("refused or failed: %s: %s\n  statement: %s" % (type(e).__name__, short(str(e)), sql_of(s, o)))
    finally:
        srv.faults.clear()
    if "inject" in o and state["fired"]:
        if o["inject"]["kind"] == "refused":
            raise Violation("answered although the backend refused a statement: " + sql_of(s, o))
        note.label("answered_under_fault")
    return n


SUBS = [Sub("sums", history, run, quick=700, thorough=15000, shards=(8, 16))]
