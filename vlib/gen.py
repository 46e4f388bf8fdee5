"""Generators for the end-to-end checks: schemas, rows, statements - all plain JSON - and their SQL text."""
import re
from decimal import Decimal

from hypothesis import strategies as st

# pairs of primes with gcd(pq, (p-1)(q-1)) = 1 whose ciphertext arithmetic fits the server's DECIMALs
HOMO_KEYS = [[787659527, 1023624989], [1000000007, 998244353], [104395301, 179424673], [536870909, 1073741789],
             [15485863, 982451653], [2147483647, 67867967]]
BIG = HOMO_KEYS[0]

NAMES = ["a", "b", "id", "name", "age", "Age2", "col_1", "score", "note", "x1", "_tmp", "userName", "c", "k", "zip",
         "order", "select", "user id", "from", "地址", "a-b", "total", "v"]
SAFE = [n for n in NAMES if n.isidentifier() and n.isascii() and n not in ("order", "select", "from")]
TABLES = ["t", "users", "Orders_1", "x_y", "table_a", "tt", "points"]

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDXYZ0123456789"
CJK = "中文字符测试数据北京上海腾讯公司大华光树"
PUNCT = " '\"%_-.,;:()[]{}<>=!?/*+#@&|~^$`"
UNI = "éüñßøλжあ한😀"


def q(name):
    """an identifier as a MySQL client would write it"""
    if name.isidentifier() and name.isascii() and name.lower() not in KEYWORDS:
        return name
    return "`" + name.replace("`", "``") + "`"


KEYWORDS = {"order", "select", "from", "where", "table", "group", "by", "key", "primary", "desc", "limit"}


def lit(v):
    """a constant as SQL text"""
    if v is None:
        return "NULL"
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        s = format(Decimal(repr(v)), "f")
        return s if "." in s else s + ".0"
    return "'" + v.replace("'", "''") + "'"


# ------------------------------------------------------------------ values
def ints(lo=-2**31, hi=2**31 - 1):
    small = st.integers(max(lo, -20), min(hi, 20))
    edge = [x for x in (lo, lo + 1, hi, hi - 1, -1, 0, 1, 255, 256, 65535, 65536, -2**15, 10**6, -10**6, 99, 100, 127)
            if lo <= x <= hi]
    return st.one_of(small, small, st.sampled_from(edge), st.integers(lo, hi))


def floats(limit=9_000_000, places=12):
    def mk(t):
        n, e = t
        v = Decimal(n).scaleb(-e)
        f = float(v)
        return f if abs(f) <= limit else float(n % 4000)
    return st.one_of(
        st.tuples(st.integers(-10**4, 10**4), st.integers(0, 4)).map(mk),
        st.tuples(st.integers(-10**6, 10**6), st.integers(0, places)).map(mk),
        st.sampled_from([0.0, 1.1, -1.1, 0.1, 0.29, 1e-12, -1e-12, 2.675, 1000000.0, 0.5, -0.5, 123456.789012, 3.0])
        .map(lambda f: f if abs(f) <= limit else 1.5))


def texts(maxlen, alphabet="mix"):
    """strings of at most maxlen UTF-8 bytes, not ending in NUL"""
    pools = [st.sampled_from(ALPHA), st.sampled_from(ALPHA + " _-.")]
    if alphabet == "mix":
        pools += [st.sampled_from(ALPHA + PUNCT), st.sampled_from(CJK), st.sampled_from(CJK + ALPHA + UNI + PUNCT),
                  st.sampled_from("ab")]
    special = ["", "007", "0", "-5", "1e3", "1.50", " x", "x ", "NULL", "null", "''", "a'b", 'a"b', "100%", "a_b",
               "select * from t", "x; drop table t", "--", "/* c */", "True", "None", "中文", "1", "16bytes_16bytes_",
               "a" * 15, "a" * 16, "a" * 17, "a" * 32, "[1]", "{'a': 1}", "#x", "\t", "line1\nline2", "`", "=", "%s",
               "%d%%", "\r\n"]
    s = st.one_of(*[st.text(p, max_size=min(maxlen, 24)) for p in pools], st.sampled_from(special),
                  st.text(pools[0], min_size=max(0, maxlen - 2), max_size=maxlen) if maxlen <= 200 else
                  st.text(pools[0], max_size=60))

    def cut(x):
        return x.encode("utf8")[:maxlen].decode("utf8", "ignore")
    return s.map(cut)


DT = st.builds(lambda y, mo, d, h, mi, s: "%04d-%02d-%02d %02d:%02d:%02d" % (y, mo, d, h, mi, s),
               st.integers(1990, 2037), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23),
               st.integers(0, 59), st.integers(0, 59))


def values(col):
    """non-NULL values of a column"""
    t = col["type"]
    k = t[0]
    if k == "int":
        if (col["enc"] or {}).get("arithmetic"):
            return ints(-2**31, 2**31 - 1)
        return ints(0) if col.get("unsigned") else ints()
    if k == "bigint":
        return ints(-2**63, 2**63 - 1)
    if k == "tinyint":
        return ints(-128, 127)
    if k in ("varchar", "char"):
        n = t[1]
        if col["enc"] and col["enc"].get("fuzzy"):
            n = min(n, 60)
        # MySQL strips trailing spaces of CHAR: a plain char column cannot hold them
        s = texts(n)
        return s.map(lambda x: x.rstrip(" ")) if k == "char" else s
    if k == "text":
        return texts(300)
    if k in ("float", "double"):
        if (col["enc"] or {}).get("arithmetic"):
            return floats(5000)
        if not col["enc"]:
            return floats(10**6, 3) if k == "double" else st.integers(-4000, 4000).map(lambda n: n / 4)
        return floats()
    if k == "decimal":
        return st.tuples(st.integers(-10**6, 10**6)).map(lambda n: n[0] / 100)
    if k == "datetime":
        return DT
    if k == "date":
        return DT.map(lambda x: x[:10])
    raise ValueError(k)


# ------------------------------------------------------------------ schemas
KEYS = st.one_of(st.sampled_from(["abcdefghijklmnopqrstuvwxyz@#$%^&*()points", "points", "k1", "k2", "密钥", "a'b\"c"]),
                 st.text(st.sampled_from(ALPHA + PUNCT + CJK), min_size=1, max_size=40))


def enc_config(draw, kind):
    c = {"key": draw(KEYS), "fuzzy": False}
    if kind in ("varchar", "char", "int"):
        c["fuzzy"] = draw(st.booleans())
    if kind in ("int", "float") and draw(st.integers(0, 2)) == 0:
        c["arithmetic"] = True
        c["homomorphic_key"] = draw(st.sampled_from(HOMO_KEYS)) if kind == "int" else BIG
    if draw(st.integers(0, 3)) == 0:
        c["sm4"] = True
        c["sm4_key"] = draw(KEYS)
    return c


@st.composite
def column(draw, name, enc=None, kinds=None, plain_kinds=None, defaults=True):
    if enc is None:
        enc = draw(st.integers(0, 2)) > 0
    if enc:
        kind = draw(st.sampled_from(kinds or ["int", "int", "varchar", "varchar", "char", "float", "double"]))
    else:
        kind = draw(st.sampled_from(plain_kinds or ["int", "int", "varchar", "varchar", "char", "text", "bigint",
                                                    "tinyint", "decimal", "double", "datetime"]))
    t = [kind]
    if kind == "varchar":
        t.append(draw(st.sampled_from([1, 2, 5, 10, 15, 16, 17, 20, 31, 32, 33, 47, 48, 50, 64, 100, 143, 144, 190,
                                       255])))
    elif kind == "char":
        t.append(draw(st.sampled_from([1, 3, 10, 16, 20, 32, 64, 100])))
    elif kind == "decimal":
        t += [10, 2]
    elif kind in ("int", "bigint") and draw(st.integers(0, 5)) == 0:
        t.append(11)
    c = {"name": name, "type": t, "enc": enc_config(draw, kind) if enc else None}
    if draw(st.integers(0, 3)) == 0:
        c["notnull"] = True
    elif draw(st.integers(0, 5)) == 0:
        c["null"] = True
    if defaults and kind != "text" and draw(st.integers(0, 5)) == 0:
        c["default"] = draw(values(c))
    if draw(st.integers(0, 7)) == 0:
        c["comment"] = draw(st.sampled_from(["主键", "a comment", "it''s"]))
    return c


@st.composite
def schema(draw, table=None, min_cols=1, max_cols=6, names=None, enc_min=0, kinds=None, plain_kinds=None,
           defaults=True, key=True):
    n = draw(st.integers(min_cols, max_cols))
    pool = names or NAMES
    cols, used = [], set()
    order = draw(st.permutations(pool))
    for name in order:
        if name.lower() in used or len(cols) >= n:
            continue
        used.add(name.lower())
        force = True if len(cols) < enc_min else None
        cols.append(draw(column(name, force, kinds, plain_kinds, defaults)))
    if key and draw(st.integers(0, 4)) == 0:
        if draw(st.booleans()):
            cols.insert(0, {"name": "rid", "type": ["int"], "enc": None, "pk": True, "auto": True, "notnull": True})
        else:
            k = draw(st.sampled_from(range(len(cols))))
            if cols[k]["type"][0] in ("int", "varchar", "char", "bigint") and "default" not in cols[k]:
                cols[k]["pk"] = True
                cols[k].pop("null", None)
    enc = [c["enc"] for c in cols if c["enc"]]
    if len(enc) > 1 and draw(st.integers(0, 2)) == 0:
        for e in enc:
            e["key"] = enc[0]["key"]
    if not table:
        table = draw(st.sampled_from(TABLES))
    return {"table": table, "cols": cols}


def encrypted_columns(schema):
    return {c["name"]: c["enc"] for c in schema["cols"] if c["enc"]}


def type_sql(c, reference=False):
    t = c["type"]
    k = t[0]
    if reference and k == "float" and c["enc"]:
        k = "double"
    if reference and k in ("varchar", "char"):
        return "%s(%d)" % (k, t[1])
    s = k + ("(%s)" % ",".join(map(str, t[1:])) if len(t) > 1 else "")
    if c.get("unsigned"):
        s += " unsigned"
    return s


def create_sql(schema, reference=False, if_not_exists=False):
    parts = []
    for c in schema["cols"]:
        s = q(c["name"]) + " " + type_sql(c, reference)
        if c.get("notnull"):
            s += " NOT NULL"
        elif c.get("null"):
            s += " NULL"
        if c.get("auto"):
            s += " AUTO_INCREMENT"
        if c.get("pk"):
            s += " PRIMARY KEY"
        if "default" in c:
            s += " DEFAULT " + lit(c["default"])
        if c.get("comment"):
            s += " COMMENT '" + c["comment"] + "'"
        parts.append(s)
    return "CREATE TABLE %s%s (%s)" % ("IF NOT EXISTS " if if_not_exists else "", q(schema["table"]), ", ".join(parts))


# ------------------------------------------------------------------ rows and statements
def same_text(c, vals):
    """values for column c whose text is that of one of `vals` (values of any column): under one key their
    ciphertexts are equal although their types are not"""
    kind, out = c["type"][0], []
    for v in vals:
        if kind in ("varchar", "char"):
            new = [str(v)] if isinstance(v, (int, str)) else [str(int(Decimal(repr(v)) * 10 ** 12))]
            n = min(c["type"][1], 20)
            out += [x for x in new if len(x) <= n and x.isascii() and x.isalnum()]
        elif kind == "int":
            if isinstance(v, (int, str)) and re.fullmatch(r"0|[1-9][0-9]{0,8}", str(v)):
                out.append(int(v))
    return out


@st.composite
def row(draw, schema, pool=None):
    """one value per column; None is NULL; values are taken from `pool` (earlier rows) now and then"""
    out = []
    for i, c in enumerate(schema["cols"]):
        if c.get("auto"):
            out.append(None)
            continue
        if not c.get("notnull") and not c.get("pk") and draw(st.integers(0, 7)) == 0:
            out.append(None)
            continue
        old = [r[i] for r in pool or [] if r[i] is not None]
        if old and not c.get("pk") and draw(st.integers(0, 2)) == 0:
            out.append(draw(st.sampled_from(old)))
            continue
        if c["enc"] and not c.get("pk") and draw(st.integers(0, 5)) == 0:
            alike = same_text(c, [v for r in (pool or [])[-3:] + [out] for v in r if v is not None])
            if alike:
                out.append(draw(st.sampled_from(alike)))
                continue
        out.append(draw(values(c)))
    return out


@st.composite
def rows(draw, schema, min_size=0, max_size=8):
    n = draw(st.integers(min_size, max_size))
    out = []
    for _ in range(n):
        out.append(draw(row(schema, out)))
    return out


def insert_sql(schema, rows, cols=None):
    """cols: list of column indexes (None: no column list, all columns)"""
    ids = list(range(len(schema["cols"]))) if cols is None else cols
    head = "INSERT INTO " + q(schema["table"])
    if cols is not None:
        head += " (" + ", ".join(q(schema["cols"][i]["name"]) for i in ids) + ")"
    return head + " VALUES " + ", ".join("(" + ", ".join(lit(r[i]) for i in ids) + ")" for r in rows)


ORDERED = ("int", "bigint", "tinyint", "decimal", "float", "double", "datetime")


def ranged(c):
    """can the column be compared with < and sorted through the proxy?"""
    if c["enc"]:
        return c["type"][0] in ("int", "float", "double")
    return True


def near(draw, c, v):
    k = c["type"][0]
    if k in ("int", "bigint", "tinyint"):
        return v + draw(st.integers(-1, 1))
    if k in ("float", "double", "decimal"):
        return draw(st.sampled_from([v, v, float(Decimal(repr(float(v))) + Decimal("0.01")),
                                     float(Decimal(repr(float(v))) - Decimal("0.000001"))])) if k != "decimal" else v
    return v


@st.composite
def const(draw, schema, i, data):
    c = schema["cols"][i]
    old = [r[i] for r in data if r[i] is not None]
    if old and draw(st.integers(0, 4)) > 0:
        v = draw(st.sampled_from(old))
        v = near(draw, c, v)
        return v if fits(c, v) else draw(st.sampled_from(old))
    return draw(values(c))


def fits(c, v):
    k = c["type"][0]
    if k == "int":
        return -2**31 <= v < 2**31
    if k == "bigint":
        return -2**63 <= v < 2**63
    if k in ("float", "double"):
        return abs(v) < 9e6
    return True


@st.composite
def cond(draw, schema, data, depth=2, qual=None):
    kind = draw(st.sampled_from(["cmp"] * 4 + (["and", "or", "not"] if depth > 0 else [])))
    if kind == "cmp":
        i = draw(st.integers(0, len(schema["cols"]) - 1))
        c = schema["cols"][i]
        ops = ["=", "=", "<>", "!="] + (["<", "<=", ">", ">="] * 2 if ranged(c) else [])
        op = draw(st.sampled_from(ops))
        return ["cmp", op, i, draw(const(schema, i, data))]
    if kind == "not":
        return ["not", draw(cond(schema, data, depth - 1)), draw(st.booleans())]
    n = draw(st.integers(2, 3))
    return [kind, [draw(cond(schema, data, depth - 1)) for _ in range(n)]]


def cond_sql(schema, c, up=0):
    """up: binding strength of the context (0 none, 1 or, 2 and, 3 not)"""
    if c[0] == "cmp":
        return "%s %s %s" % (q(schema["cols"][c[2]]["name"]), c[1], lit(c[3]))
    if c[0] == "not":
        if c[2]:
            s = "NOT (" + cond_sql(schema, c[1]) + ")"
        else:
            s = "NOT " + cond_sql(schema, c[1], 3)
        return s if up < 3 else "(" + s + ")"
    level = 1 if c[0] == "or" else 2
    s = (" %s " % c[0].upper()).join(cond_sql(schema, x, level) for x in c[1])
    return s if up < level else "(" + s + ")"


@st.composite
def select(draw, schema, data):
    """a single-table SELECT"""
    n = len(schema["cols"])
    s = {}
    kind = draw(st.integers(0, 9))
    if kind <= 2:
        s["cols"] = "*"
    elif kind <= 7:
        s["cols"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n + 1, 5)))
        s["distinct"] = draw(st.integers(0, 3)) == 0
    else:
        fs = []
        for _ in range(draw(st.integers(1, 3))):
            f = draw(st.sampled_from(["count*", "count", "max", "min", "countd"]))
            i = draw(st.integers(0, n - 1))
            c = schema["cols"][i]
            if f in ("max", "min") and (not ranged(c)):
                f = "count"
            fs.append([f, i])
        s["aggs"] = fs
    if draw(st.integers(0, 2)) > 0:
        s["where"] = draw(cond(schema, data))
    if "aggs" not in s:
        can = [i for i in range(n) if ranged(schema["cols"][i])]
        if s.get("distinct"):
            can = [i for i in can if i in s["cols"]]
            if any(schema["cols"][i]["enc"] for i in can):
                can = [i for i in can if not schema["cols"][i]["enc"]]
        if can and draw(st.integers(0, 1)):
            s["order"] = [[i, draw(st.sampled_from(["", "ASC", "DESC"]))]
                          for i in draw(st.lists(st.sampled_from(can), min_size=1, max_size=2, unique=True))]
        if draw(st.integers(0, 3)) == 0:
            s["limit"] = draw(st.one_of(st.integers(0, 5).map(lambda x: [x]),
                                        st.tuples(st.integers(0, 3), st.integers(0, 4)).map(list)))
            s["limit_form"] = draw(st.sampled_from(["comma", "offset"]))
    s["case"] = draw(st.sampled_from(["upper", "lower"]))
    return s


def select_sql(schema, s, table=None):
    cols = schema["cols"]
    if "aggs" in s:
        out = []
        for f, i in s["aggs"]:
            name = q(cols[i]["name"])
            out.append({"count*": "COUNT(*)", "count": "COUNT(%s)" % name, "countd": "COUNT(DISTINCT %s)" % name,
                        "max": "MAX(%s)" % name, "min": "MIN(%s)" % name}[f])
        what = ", ".join(out)
    elif s["cols"] == "*":
        what = "*"
    else:
        what = ", ".join(q(cols[i]["name"]) for i in s["cols"])
    parts = ["SELECT " + ("DISTINCT " if s.get("distinct") else "") + what, "FROM " + (table or q(schema["table"]))]
    if "where" in s:
        parts.append("WHERE " + cond_sql(schema, s["where"]))
    if "order" in s:
        parts.append("ORDER BY " + ", ".join((q(cols[i]["name"]) + " " + d).strip() for i, d in s["order"]))
    if "limit" in s:
        lim = s["limit"]
        if len(lim) == 1:
            parts.append("LIMIT %d" % lim[0])
        elif s["limit_form"] == "comma":
            parts.append("LIMIT %d, %d" % tuple(lim))
        else:
            parts.append("LIMIT %d OFFSET %d" % (lim[1], lim[0]))
    text = " ".join(parts)
    if s["case"] == "lower":
        for k in ("SELECT", "DISTINCT", "FROM", "WHERE", "ORDER BY", "LIMIT", "OFFSET"):
            pass
        parts = [p.split(" ", 1)[0].lower() + " " + p.split(" ", 1)[1] for p in parts]
        text = " ".join(parts)
    return text
