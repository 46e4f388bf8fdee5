"""C02: a query through the proxy answers what the same query answers on plaintext."""
from hypothesis import strategies as st

from vlib import e2e, gen, minisql
from vlib.core import Sub, Violation, short

PROPERTY = "C02"
TECHNIQUE = "property-based testing: generated tables and queries, differential against a plaintext reference database"
LEVEL_NOTE = ("Generated SELECTs over generated tables, the real proxy over an in-memory MySQL stand-in compared with the "
              "same stand-in holding plaintext; trusts that stand-in and is limited to the generated statement forms.")
RULE = ("the statement touches an encrypted column and either answers at least one row, has a condition that separates "
        "rows, or (sub-check reject) lies outside the documented forms")
ASSUMPTIONS = ["binary collation; texts compare equal only if identical",
               "sorting and ranges on encrypted columns only for int, float and double",
               "joins compare columns with the same key and type or two plain columns"]


def values_in(cond):
    if cond[0] == "cmp":
        return [cond[2]]
    if cond[0] == "not":
        return values_in(cond[1])
    return [x for c in cond[1] for x in values_in(c)]


def touches(schema, s):
    cols = set()
    n = len(schema["cols"])
    if "aggs" in s:
        cols |= {i for _, i in s["aggs"]}
    elif s["cols"] == "*":
        cols |= set(range(n))
    else:
        cols |= set(s["cols"])
    if "where" in s:
        cols |= set(values_in(s["where"]))
    cols |= {i for i, _ in s.get("order", [])}
    return any(schema["cols"][i]["enc"] for i in cols)


def load(p, schema, data, db=None):
    p.create(schema, db)
    for k in range(0, len(data), 4):
        p.write(gen.insert_sql(schema, data[k:k + 4]), db)


# ------------------------------------------------------------------ single table
@st.composite
def single(draw):
    s = draw(gen.schema(max_cols=5, enc_min=1, defaults=False))
    data = draw(gen.rows(s, 1, 9))
    return {"schema": s, "rows": data, "selects": [draw(gen.select(s, data)) for _ in range(draw(st.integers(2, 7)))]}


def run_single(case, note):
    schema = case["schema"]
    p = e2e.Pair()
    load(p, schema, case["rows"])
    for s in case["selects"]:
        got = p.compare(schema, s)
        note.nontrivial(touches(schema, s) and (got or "where" in s))
        note.label("answers_rows" if got else "answers_nothing")
        for k in ("where", "order", "limit", "aggs", "distinct"):
            if s.get(k):
                note.label("with_" + k)


# ------------------------------------------------------------------ joins
@st.composite
def joins(draw):
    kind = draw(st.sampled_from(["int", "varchar", "char", "float"]))
    enc = gen.enc_config(draw, kind) if draw(st.integers(0, 3)) else None
    if enc:
        enc.pop("arithmetic", None), enc.pop("homomorphic_key", None)
    t = [kind] if kind in ("int", "float") else [kind, 12]
    if kind == "float" and not enc:
        kind, t = "int", ["int"]
    out = []
    names = draw(st.permutations([n for n in gen.SAFE]))
    shared = draw(st.booleans())
    k = 0
    for j in range(2):
        cols = []
        jn = names[0] if (shared or j == 0) else names[1]
        k = 2 + 3 * j
        nother = draw(st.integers(1, 3))
        others = [draw(gen.column(names[k + x], defaults=False)) for x in range(nother)]
        if draw(st.integers(0, 4)) == 0:
            others[0]["name"] = names[8]            # the same name in both tables
        jc = {"name": jn, "type": t, "enc": dict(enc) if enc else None}
        cols = others
        for c in cols:
            c.pop("comment", None), c.pop("pk", None)
        cols.insert(draw(st.integers(0, len(cols))), jc)
        out.append({"table": ["t1", "t2"][j] if draw(st.integers(0, 3)) else ["orders_x", "users"][j], "cols": cols,
                    "join": cols.index(jc)})
    pool = draw(st.lists(gen.values(out[0]["cols"][out[0]["join"]]), min_size=1, max_size=4, unique_by=lambda x: str(x)))
    datas = []
    for s in out:
        data = draw(gen.rows(s, 0, 6))
        for r in data:
            if draw(st.integers(0, 7)):
                r[s["join"]] = draw(st.sampled_from(pool))
        datas.append(data)
    qs = []
    for _ in range(draw(st.integers(1, 5))):
        q = {"kind": draw(st.sampled_from(["join", "inner join", "left join", "right join", "comma"]))}
        both = [[j, i] for j in range(2) for i in range(len(out[j]["cols"]))]
        q["cols"] = draw(st.lists(st.sampled_from(both), min_size=1, max_size=4))
        q["flip"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            q["where"] = []
            for _ in range(draw(st.integers(1, 2))):
                j, i = draw(st.sampled_from(both))
                c = out[j]["cols"][i]
                op = draw(st.sampled_from(["=", "<>"] + (["<", ">=", ">", "<="] if gen.ranged(c) else [])))
                q["where"].append([j, i, op, draw(gen.const(out[j], i, datas[j]))])
            q["conn"] = draw(st.sampled_from(["AND", "AND", "OR"]))
        can = [x for x in both if gen.ranged(out[x[0]]["cols"][x[1]])]
        if can and draw(st.integers(0, 7)) == 0:
            q["order"] = draw(st.sampled_from(can)) + [draw(st.sampled_from(["", "DESC"]))]
        qs.append(q)
    return {"tables": out, "rows": datas, "queries": qs}


def join_sql(ts, q, cols=None):
    def name(j, i):
        return gen.q(ts[j]["table"]) + "." + gen.q(ts[j]["cols"][i]["name"])
    a, b = (1, 0) if q["flip"] else (0, 1)
    what = ", ".join(name(j, i) for j, i in (cols or q["cols"]))
    on = "%s = %s" % (name(0, ts[0]["join"]), name(1, ts[1]["join"]))
    cond = ""
    if q.get("where"):
        cond = (" %s " % q["conn"]).join("%s %s %s" % (name(j, i), op, gen.lit(v)) for j, i, op, v in q["where"])
    if q["kind"] == "comma":
        sql = "SELECT %s FROM %s, %s WHERE %s" % (what, gen.q(ts[a]["table"]), gen.q(ts[b]["table"]), on)
        if cond:
            sql += " AND (" + cond + ")"
    else:
        sql = "SELECT %s FROM %s %s %s ON %s" % (what, gen.q(ts[a]["table"]), q["kind"].upper(), gen.q(ts[b]["table"]), on)
        if cond:
            sql += " WHERE " + cond
    if q.get("order"):
        j, i, d = q["order"]
        sql += (" ORDER BY %s %s" % (name(j, i), d)).rstrip()
    return sql


def run_joins(case, note):
    ts = case["tables"]
    p = e2e.Pair()
    for t, data in zip(ts, case["rows"]):
        load(p, t, data)
    for q in case["queries"]:
        sql = join_sql(ts, q)
        if q.get("where") or q.get("order"):
            # outside the documented forms: an error, or the right answer
            if p.try_proxy(sql)[1] is not None:
                note.label("join_with_more_refused")
                continue
        got, want = p.select(sql)
        if not e2e.multiset_equal(got, want):
            raise Violation("wrong answer: %s, plaintext %s\n  statement: %s" % (short(got), short(want), sql))
        if q.get("order"):
            vis = join_sql(ts, q, [q["order"][:2]])
            g2, w2 = p.select(vis)
            if not e2e.rows_equal(g2, w2):
                raise Violation("wrong order: %s, plaintext %s\n  statement: %s" % (short(g2), short(w2), vis))
        enc = any(ts[j]["cols"][i]["enc"] for j, i in q["cols"]) or ts[0]["cols"][ts[0]["join"]]["enc"]
        note.nontrivial(want and enc)
        note.label(q["kind"].replace(" ", "_"), "rows" if want else "no_rows",
                   "join_on_ciphertext" if ts[0]["cols"][ts[0]["join"]]["enc"] else "join_on_plain")


# ------------------------------------------------------------------ nested
@st.composite
def nested(draw):
    s = draw(gen.schema(max_cols=4, enc_min=1, defaults=False, names=gen.SAFE))
    data = draw(gen.rows(s, 1, 8))
    n = len(s["cols"])
    qs = []
    for _ in range(draw(st.integers(1, 4))):
        q = {"cols": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)),
             "alias": draw(st.sampled_from(["b", "tmp1", "sub"]))}
        for w in ("inner", "outer"):
            if draw(st.integers(0, 3)) < (3 if w == "inner" else 1):
                q[w] = draw(gen.cond(s, data, depth=1))
        qs.append(q)
    return {"schema": s, "rows": data, "queries": qs}


def nested_sql(s, q):
    inner = "SELECT * FROM " + gen.q(s["table"])
    if "inner" in q:
        inner += " WHERE " + gen.cond_sql(s, q["inner"])
    sql = "SELECT %s FROM (%s) AS %s" % (", ".join(gen.q(s["cols"][i]["name"]) for i in q["cols"]), inner, q["alias"])
    if "outer" in q:
        sql += " WHERE " + gen.cond_sql(s, q["outer"])
    return sql


def run_nested(case, note):
    s = case["schema"]
    p = e2e.Pair()
    load(p, s, case["rows"])
    for q in case["queries"]:
        sql = nested_sql(s, q)
        if "outer" in q and p.try_proxy(sql)[1] is not None:
            note.label("outer_condition_refused")
            continue
        got, want = p.select(sql)
        if not e2e.multiset_equal(got, want):
            raise Violation("wrong answer: %s, plaintext %s\n  statement: %s" % (short(got), short(want), sql))
        note.nontrivial(any(s["cols"][i]["enc"] for i in q["cols"]) and ("outer" in q or "inner" in q or want))


# ------------------------------------------------------------------ outside the documented forms
TEMPLATES = [
    "SELECT {a} FROM {t} WHERE {c} IN ({v}, {v2})",
    "SELECT {a} FROM {t} WHERE {c} NOT IN ({v}, {v2})",
    "SELECT {a} FROM {t} WHERE {c} IN ({v})",
    "SELECT {a} FROM {t} WHERE {c} BETWEEN {v} AND {v2}",
    "SELECT {a} FROM {t} WHERE {c} NOT BETWEEN {v} AND {v2}",
    "SELECT {a} FROM {t} WHERE {c} IS NULL",
    "SELECT {a} FROM {t} WHERE {c} IS NOT NULL",
    "SELECT {a} FROM {t} WHERE NOT {c} IS NULL",
    "SELECT {a} FROM {t} WHERE {c} LIKE {like}",
    "SELECT {a} FROM {t} WHERE {c} NOT LIKE {like}",
    "SELECT {a} FROM {t} WHERE {c} = {d}",
    "SELECT {a} FROM {t} WHERE {c} < {d}",
    "SELECT {a} FROM {t} WHERE {c} <> {d}",
    "SELECT {a} FROM {t} WHERE {v} = {c}",
    "SELECT {a} FROM {t} WHERE {v} < {c}",
    "SELECT {a} FROM {t} WHERE {c} + 1 = {v}",
    "SELECT {a} FROM {t} WHERE {c} = {v} + 0",
    "SELECT {a} FROM {t} WHERE {c} < {v}",
    "SELECT {a} FROM {t} WHERE {c} >= {v}",
    "SELECT {a} FROM {t} WHERE {c}",
    "SELECT {a} FROM {t} WHERE NOT {c}",
    "SELECT {a} FROM {t} WHERE {c} = {v} AND {d}",
    "SELECT {a} FROM {t} WHERE {c} = NULL",
    "SELECT {a} FROM {t} WHERE {c} <> NULL",
    "SELECT {a} FROM {t} WHERE UPPER({c}) = {v}",
    "SELECT {a} FROM {t} WHERE LENGTH({c}) > 3",
    "SELECT {a} FROM {t} WHERE COALESCE({c}, {v}) = {v}",
    "SELECT {a} FROM {t} WHERE {c} = (SELECT MAX({c}) FROM {t})",
    "SELECT {a} FROM {t} WHERE {c} IN (SELECT {c} FROM {t})",
    "SELECT {a} FROM {t} WHERE {d} IN (SELECT {d} FROM {t} WHERE {c} = {v})",
    "SELECT {a} FROM {t} WHERE EXISTS (SELECT 1 FROM {t} WHERE {c} = {v})",
    "SELECT {a} FROM {t} WHERE CASE WHEN {c} = {v} THEN 1 ELSE 0 END = 1",
    "SELECT {a} FROM {t} WHERE 1 = 1",
    "SELECT {a} FROM {t} WHERE 1 = 0 OR {c} = {v}",
    "SELECT {a} FROM {t} WHERE {c} = {badtype}",
    "SELECT {a} FROM {t} WHERE {c} <> {badtype}",
    "SELECT {a} FROM {t} WHERE {c} < {badtype}",
    "SELECT {a}, {c} FROM {t} ORDER BY {c}",
    "SELECT {a}, {c} FROM {t} ORDER BY {c} DESC",
    "SELECT {a}, {c} FROM {t} ORDER BY 2",
    "SELECT {c} FROM {t} GROUP BY {c}",
    "SELECT {c}, COUNT(*) FROM {t} GROUP BY {c}",
    "SELECT COUNT(*), {c} FROM {t} GROUP BY {c} HAVING COUNT(*) > 1",
    "SELECT COUNT(*) FROM {t} GROUP BY {d} HAVING {d} = {w}",
    "SELECT MAX({c}) FROM {t}",
    "SELECT MIN({c}), MAX({d}) FROM {t}",
    "SELECT MIN({c}) FROM {t} WHERE {d} = {w}",
    "SELECT COUNT({c}), COUNT(DISTINCT {d}) FROM {t}",
    "SELECT COUNT(1) FROM {t}",
    "SELECT UPPER({c}) FROM {t}",
    "SELECT LENGTH({c}) FROM {t}",
    "SELECT {c} + 1 FROM {t}",
    "SELECT {c} + {d} FROM {t}",
    "SELECT -{c} FROM {t}",
    "SELECT CONCAT({c}, 'x') FROM {t}",
    "SELECT CASE WHEN {c} = {v} THEN 1 ELSE 0 END FROM {t}",
    "SELECT {c} = {v} FROM {t}",
    "SELECT {c} AS z FROM {t}",
    "SELECT {c} AS z, {d} AS y FROM {t}",
    "SELECT {t}.{c} FROM {t}",
    "SELECT {t}.* FROM {t}",
    "SELECT x.{c} FROM {t} AS x WHERE x.{c} = {v}",
    "SELECT x.{c} FROM {t} x",
    "SELECT DISTINCT {c} FROM {t}",
    "SELECT DISTINCT {c}, {d} FROM {t}",
    "SELECT 1 FROM {t}",
    "SELECT {c}, 1 FROM {t}",
    "SELECT {v} FROM {t}",
    "SELECT {c}, {c} FROM {t}",
    "SELECT *, {c} FROM {t}",
    "SELECT nosuch FROM {t}",
    "SELECT {c} FROM nosuch",
    "SELECT {c} FROM {t} WHERE nosuch = 1",
    "SELECT {c} FROM {t} ORDER BY nosuch",
    "SELECT {c} FROM {t} UNION SELECT {c} FROM {t}",
    "SELECT {c} FROM {t} UNION ALL SELECT {c} FROM {t}",
    "SELECT {c} FROM {t} UNION ALL SELECT {d} FROM {t}",
    "SELECT {c} FROM (SELECT {c} FROM {t}) AS b",
    "SELECT {c} FROM (SELECT {c}, {d} FROM {t} WHERE {d} = {w}) AS b",
    "SELECT COUNT(*) FROM (SELECT {c} FROM {t}) AS b",
    "SELECT {c} FROM {t} WHERE {c} = {v} LIMIT 1",
    "SELECT {c} FROM {t} LIMIT 2",
    "SELECT {c} FROM {t} WHERE ({c} = {v} OR {d} = {w}) AND NOT ({c} = {v} AND {d} = {w})",
    "SELECT {c} FROM {t} WHERE {c} = {v} XOR {d} = {w}",
    "SELECT {c} FROM {t} WHERE {c} <=> {v}",
    "SELECT {c} FROM {t} WHERE {c} REGEXP 'a'",
    "SELECT IFNULL({c}, {v}) FROM {t}",
    "SELECT MAX({c}) AS m FROM {t}",
    "SELECT MAX({c}) + 1 FROM {t}",
    "SELECT {c} FROM {t} WHERE {c} = MAX({c})",
]


@st.composite
def reject(draw):
    s = draw(gen.schema(min_cols=2, max_cols=4, enc_min=1, defaults=False, names=gen.SAFE, key=False))
    data = draw(gen.rows(s, 1, 6))
    n = len(s["cols"])
    enc = [i for i in range(n) if s["cols"][i]["enc"]]
    out = []
    for _ in range(draw(st.integers(2, 8))):
        c = draw(st.sampled_from(enc)) if draw(st.integers(0, 4)) else draw(st.integers(0, n - 1))
        d = draw(st.sampled_from([i for i in range(n) if i != c]))
        a = draw(st.integers(0, n - 1))
        col = s["cols"][c]
        text = str(draw(gen.const(s, c, data)))
        k = draw(st.integers(0, max(0, len(text) - 3)))
        like = "%" + text[k:k + draw(st.integers(0, 5))].replace("%", "").replace("_", "").replace("\\", "") + "%"
        out.append({"k": draw(st.integers(0, len(TEMPLATES) - 1)), "a": a, "c": c, "d": d,
                    "v": draw(gen.const(s, c, data)), "v2": draw(gen.const(s, c, data)),
                    "w": draw(gen.const(s, d, data)), "like": like,
                    "bad": draw(st.sampled_from(["abc", "12", "", "1.5"])) if col["type"][0] in (
                        "int", "float", "double") else draw(st.sampled_from([0, 1, 12, 1.5]))})
    return {"schema": s, "rows": data, "queries": out}


def template_sql(s, q):
    name = [gen.q(c["name"]) for c in s["cols"]]
    return TEMPLATES[q["k"]].format(t=gen.q(s["table"]), a=name[q["a"]], c=name[q["c"]], d=name[q["d"]],
                                    v=gen.lit(q["v"]), v2=gen.lit(q["v2"]), w=gen.lit(q["w"]),
                                    like=gen.lit(q["like"]), badtype=gen.lit(q["bad"]))


def run_reject(case, note):
    s = case["schema"]
    p = e2e.Pair()
    load(p, s, case["rows"])
    for q in case["queries"]:
        sql = template_sql(s, q)
        fuzzy = (s["cols"][q["c"]]["enc"] or {}).get("fuzzy")
        if "LIKE" in sql and fuzzy:
            continue                                       # C09
        got, err = p.try_proxy(sql)
        try:
            want = [tuple(r) for r in p.refexec(sql)[1]]
        except minisql.SqlError:
            if err is None:
                raise Violation("answered %s where a plaintext database refuses\n  statement: %s" % (short(got), sql))
            note.label("refused_by_both")
            continue
        touched = s["cols"][q["c"]]["enc"]
        note.nontrivial(bool(touched))
        if err is not None:
            note.label("refused")
            continue
        note.label("answered")
        if " LIMIT " in sql:
            full = [tuple(r) for r in p.refexec(sql[:sql.index(" LIMIT ")])[1]]
            ok = len(got) == len(want) and e2e.sub_multiset(got, full)
        elif "ORDER BY" in sql:
            ok = e2e.multiset_equal(got, want) and e2e.rows_equal([r[-1:] for r in got], [r[-1:] for r in want])
        else:
            ok = e2e.multiset_equal(got, want)
        if not ok:
            raise Violation("wrong answer instead of an error: %s, plaintext %s\n  statement: %s" % (
                short(got), short(want), sql))
    p.check_table(s, "table contents after the queries")


SUBS = [Sub("single", single, run_single, quick=500, thorough=12000, shards=(4, 12)),
        Sub("joins", joins, run_joins, quick=300, thorough=6000, shards=(3, 8)),
        Sub("nested", nested, run_nested, quick=120, thorough=2500, shards=(2, 4)),
        Sub("reject", reject, run_reject, quick=400, thorough=10000, shards=(3, 10))]
