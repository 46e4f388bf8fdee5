"""C25: CREATE TABLE makes a table that can hold what the logical table can."""
import re

from hypothesis import strategies as st

from vlib import e2e, gen, minisql
from vlib.core import Sub, Violation, short

PROPERTY = "C25"
TECHNIQUE = ("property-based testing: generated CREATE TABLE statements; the statement the server gets is parsed and compared "
             "with the one asked for, then values at the limits of the declared types are stored and read back")
LEVEL_NOTE = ("The statement sent is parsed by the checker's own SQL parser and compared column by column; limits are tested "
              "by storing and reading on a simulated strict server beside a plaintext reference.")
RULE = "an encrypted column with a length, NOT NULL, a default or a key, with a stored value at the limit of its type"
ASSUMPTIONS = ["text lengths are counted in bytes, and text is at most 60 long in fuzzy columns and 990 in SM4 columns (known findings)"]
BUDGET = {"quick": 60, "thorough": 900}

LENGTHS = st.one_of(st.integers(1, 70), st.integers(1, 300), st.sampled_from([15, 16, 31, 32, 47, 48, 63, 64, 95, 96, 127, 128,
                                                                           143, 144, 190, 191, 255, 256, 500, 1000]))


@st.composite
def column(draw, name, first):
    enc = draw(st.integers(0, 2)) > 0
    kind = draw(st.sampled_from(["int", "int", "varchar", "varchar", "varchar", "char", "float", "double"] if enc else
                                ["int", "bigint", "smallint", "tinyint", "varchar", "char", "text", "decimal", "double", "float",
                                 "datetime", "date"]))
    c = {"name": name, "type": [kind], "enc": gen.enc_config(draw, kind) if enc else None}
    if kind == "varchar":
        c["type"].append(draw(LENGTHS))
    elif kind == "char":
        c["type"].append(draw(st.integers(1, 255)))
    elif kind == "decimal":
        c["type"] += [draw(st.integers(5, 30)), draw(st.integers(0, 5))]
    elif kind in ("int", "bigint", "tinyint") and draw(st.integers(0, 2)) == 0:
        c["type"].append(draw(st.integers(1, 20)))
    if kind in ("int", "bigint", "smallint", "tinyint") and draw(st.integers(0, 3)) == 0 and not \
            (enc and c["enc"].get("arithmetic")):
        c["unsigned"] = True
    opts = []
    if draw(st.integers(0, 2)) == 0:
        c["notnull"] = True
        opts.append("NOT NULL")
    elif draw(st.integers(0, 4)) == 0:
        opts.append("NULL")
    if draw(st.integers(0, 2)) == 0 and kind != "text":
        if kind == "datetime":
            c["default"] = "2020-01-02 03:04:05"
        elif kind == "date":
            c["default"] = "2020-01-02"
        elif not c.get("notnull") and draw(st.integers(0, 5)) == 0:
            c["default"] = None
        else:
            c["default"] = draw(limit(c))
        opts.append("DEFAULT " + gen.lit(c["default"]))
    if not first["pk"] and kind in ("int", "varchar", "char", "bigint") and "default" not in c and "NULL" not in opts \
            and draw(st.integers(0, 4)) == 0:
        first["pk"] = c["pk"] = True
        opts.append("PRIMARY KEY")
        if not enc and kind in ("int", "bigint") and draw(st.booleans()):
            c["auto"] = True
            opts.append("AUTO_INCREMENT")
    elif "default" not in c and not c.get("pk") and kind in ("int", "varchar", "char") and draw(st.integers(0, 6)) == 0:
        c["unique"] = True
        opts.append("UNIQUE")
    if draw(st.integers(0, 4)) == 0:
        opts.append("COMMENT " + draw(st.sampled_from(["'c'", "'主键'", "'primary key'", "'it''s, ok)'", "''"])))
    if kind in ("varchar", "char") and not enc and draw(st.integers(0, 5)) == 0:
        c["collate"] = draw(st.sampled_from(["utf8mb4_bin", "utf8mb4_general_ci"]))
        opts.append("COLLATE " + c["collate"])
    c["opts"] = draw(st.permutations(opts))
    return c


def limit(c):
    """values, the limits of the type first"""
    k = c["type"][0]
    if k in ("int", "bigint", "smallint", "tinyint"):
        bits = minisql.INT_RANGES[k]
        lo, hi = (0, 2 ** bits - 1) if c.get("unsigned") else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        return st.one_of(st.sampled_from([lo, hi, lo + 1, hi - 1, 0, 1]), st.integers(lo, hi))
    if k in ("varchar", "char"):
        n = c["type"][1]
        if c["enc"] and c["enc"].get("fuzzy"):
            n = min(n, 60)
        if c["enc"] and c["enc"].get("sm4"):
            n = min(n, 990)
        full = st.sampled_from([n, n, n, n - 1, max(0, n - 2), n // 2, 0]).flatmap(
            lambda m: st.sampled_from(["a", "b7", "x y", "it's", "%_"]).map(lambda u: (u * m)[:m]))
        s = st.one_of(full, full, gen.texts(n))
        return s.map(lambda x: x.rstrip(" ")) if k == "char" else s
    if k in ("float", "double") and c["enc"] and not c["enc"].get("arithmetic"):
        return st.one_of(st.sampled_from([0.5, -0.5, 8999999.25, -8999999.25]), gen.floats())
    if k == "decimal":
        m, d = c["type"][1:]
        return st.sampled_from([10 ** (m - d) - 1, -(10 ** (m - d) - 1), 0, 1]).filter(lambda x: m > d or x == 0)
    if k == "date":
        return st.just("2020-01-02")
    return gen.values(c)


@st.composite
def tables(draw):
    names = draw(st.permutations(gen.NAMES))[:draw(st.integers(1, 6))]
    used, cols, first = set(), [], {"pk": False}
    for n in names:
        if n.lower() not in used:
            used.add(n.lower())
            cols.append(draw(column(n, first)))
    t = {"table": draw(st.sampled_from(gen.TABLES)), "cols": cols}
    if not first["pk"] and draw(st.integers(0, 3)) == 0:
        ks = [i for i, c in enumerate(cols) if c["type"][0] in ("int", "varchar", "char", "bigint") and "NULL" not in c["opts"]
              and "default" not in c]
        ks = draw(st.permutations(ks))[:draw(st.integers(1, 2))]
        if ks:
            t["key"] = ks
            t["keyname"] = draw(st.sampled_from(["", "", "pk1"]))
    o = []
    for k, vs in (("ENGINE", ["InnoDB", "MyISAM"]), ("AUTO_INCREMENT", ["7", "100"]), ("DEFAULT CHARSET", ["utf8mb4", "utf8"]),
                  ("COLLATE", ["utf8mb4_bin", "utf8mb4_general_ci"]), ("COMMENT", ["'table of t'", "'主'"])):
        if draw(st.integers(0, 3)) == 0:
            o.append([k, draw(st.sampled_from([" = ", "=", " ="])), draw(st.sampled_from(vs))])
    t["options"] = draw(st.permutations(o))
    t["case"] = draw(st.sampled_from(["upper", "lower"]))
    t["ws"] = draw(st.sampled_from([" ", "\n  ", "\t"]))
    return t


@st.composite
def cases(draw):
    ts, seen = [], set()
    for _ in range(draw(st.integers(1, 3))):
        t = draw(tables())
        if t["table"].lower() in seen:
            continue
        seen.add(t["table"].lower())
        rows = []
        for _ in range(draw(st.integers(1, 4))):
            row = []
            for i, c in enumerate(t["cols"]):
                key = c.get("pk") or i in t.get("key", [])
                x = draw(st.integers(0, 9))
                if c.get("auto"):
                    row.append(["omit"])
                elif "default" in c and x < 4:
                    row.append(["omit"])
                elif x == 9 and not c.get("notnull") and not key:
                    row.append(draw(st.sampled_from([["omit"], [None]])) if "default" not in c else [None])
                else:
                    row.append([draw(limit(c))])
            rows.append(row)
        t["rows"] = rows
        ts.append(t)
    return {"tables": ts}


def create_sql(t, reference=False):
    parts = []
    for c in t["cols"]:
        parts.append(" ".join([gen.q(c["name"]), gen.type_sql(c, reference) + (" unsigned" if reference and c.get("unsigned") and
                      "unsigned" not in gen.type_sql(c, reference) else "")] + c["opts"]))
    if t.get("key"):
        parts.append((("CONSTRAINT %s " % t["keyname"]) if t["keyname"] else "") +
                     "PRIMARY KEY (%s)" % ", ".join(gen.q(t["cols"][i]["name"]) for i in t["key"]))
    s = "CREATE TABLE %s%s(%s)%s" % (gen.q(t["table"]), t["ws"], (", " if reference else "," + t["ws"]).join(parts),
                                     "".join(" " + "".join(o) for o in t["options"]))
    if t["case"] == "lower":
        for w in ("CREATE TABLE", "NOT NULL", "PRIMARY KEY", "AUTO_INCREMENT", "ENGINE", "COLLATE", "DEFAULT CHARSET"):
            s = re.sub(r"\b%s\b(?=[^']*(?:'[^']*'[^']*)*$)" % w, w.lower(), s)
    return s


def options(opts):
    out = {}
    for k, v in opts.items():
        k = {"character": "charset"}.get(k, k)
        if k != "comment":
            out[k] = str(v).lower()
    return out


def forms(c):
    """the hidden columns of an encrypted column: their types"""
    k = c["type"][0]
    out = [("text",)] if k in ("varchar", "char") else [("number",), ("text",)]
    if c["enc"].get("fuzzy"):
        out.append(("text",))
    if c["enc"].get("arithmetic"):
        out.append(("number",))
    if c["enc"].get("sm4"):
        out.append(("text",))
    return out


NUMBER = {"bigint", "decimal"}


def case(case, note):
    p = e2e.Pair()
    names = set()
    for t in case["tables"]:
        sql = create_sql(t)
        p.refexec(create_sql(t, True))
        mark = len(p.w.sent())
        encrypted = gen.encrypted_columns(t)
        p.proxy(sql, encrypted=encrypted)
        sent = [s for s in p.w.sent()[mark:] if s.lstrip().lower().startswith("create")]
        if len(sent) != 1:
            raise Violation("%d CREATE statements were sent for one" % len(sent))

        def bad(what):
            raise Violation("%s\n  asked for: %s\n  sent: %s" % (what, short(sql, 700), short(sent[0], 900)))

        want = minisql.parse_statement(create_sql(t, True))
        got = minisql.parse_statement(sent[0])
        if got[1] in names:
            bad("the name of the stored table is used already")
        names.add(got[1])
        hidden = list(got[2])
        for c, w in zip(t["cols"], want[2]):
            if not c["enc"]:
                if not hidden:
                    bad("column %s is missing" % c["name"])
                h = hidden.pop(0)
                w = dict(w)
                for k in sorted(set(w) | set(h)):
                    a, b = w.get(k), h.get(k)
                    if k == "args" and w["type"] not in ("varchar", "char", "decimal"):
                        continue
                    if k == "comment":
                        continue
                    if a != b and not (k == "default" and None not in (a, b) and e2e.same(a, b)):
                        bad("plain column %s: %s is %r, asked for %r" % (c["name"], k, b, a))
                continue
            shapes = forms(c)
            mine, hidden = hidden[:len(shapes)], hidden[len(shapes):]
            if len(mine) != len(shapes):
                bad("encrypted column %s has %d stored columns, %d expected" % (c["name"], len(mine), len(shapes)))
            kinds = sorted("number" if h["type"] in NUMBER else "text" for h in mine)
            if kinds != sorted(x[0] for x in shapes):
                bad("encrypted column %s is stored as %s" % (c["name"], [h["type"] for h in mine]))
            keys = 0
            for h in mine:
                if h["name"] in names or h["name"].lower() in (x["name"].lower() for x in t["cols"]):
                    bad("the name %s of a stored column is used already" % h["name"])
                names.add(h["name"])
                if h["null"] != w["null"] and not (w["pk"] and h["pk"]):
                    bad("encrypted column %s: NOT NULL is not kept" % c["name"])
                if (h["default"] is None) != (w["default"] is None):
                    bad("encrypted column %s: DEFAULT is not kept" % c["name"])
                keys += bool(h["pk"])
                if h["auto"]:
                    bad("encrypted column counts")
            if keys != bool(w["pk"]):
                bad("encrypted column %s: PRIMARY KEY is not kept" % c["name"])
            if bool(w.get("unique")) != any(h.get("unique") for h in mine):
                bad("encrypted column %s: UNIQUE is not kept" % c["name"])
            if c.get("notnull") or "default" in c or len(c["type"]) > 1 or c.get("pk"):
                note.nontrivial()
        if hidden:
            bad("stored columns %s belong to no column" % [h["name"] for h in hidden])
        if [(x[0], len(x[2])) for x in got[3]] != [(x[0], len(x[2])) for x in want[3]]:
            bad("the constraints are %s, asked for %s" % (got[3], want[3]))
        if options(got[5]) != options(want[5]):
            bad("the table options are %s, asked for %s" % (options(got[5]), options(want[5])))
        # what the logical table can hold
        for row in t["rows"]:
            use = [(c, v[0]) for c, v in zip(t["cols"], row) if v != ["omit"]]
            if not use:
                continue
            stmt = "INSERT INTO %s(%s) VALUES (%s)" % (gen.q(t["table"]), ", ".join(gen.q(c["name"]) for c, _ in use),
                                                      ", ".join(gen.lit(v) for _, v in use))
            p.write(stmt)
            note.count("rows")
        p.check_table(t)


SUBS = [
    Sub("create", cases, case, quick=500, thorough=30000, shards=(8, 8), setup=None),
]
