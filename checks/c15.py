"""C15: keys and indexes are put on the stored columns of the columns named."""
import re

from hypothesis import strategies as st

from vlib import e2e, gen
from vlib.core import Sub, Violation, short

PROPERTY = "C15"
TECHNIQUE = ("model-based property testing: generated histories of CREATE with keys, ALTER, INSERT, UPDATE, DELETE and DROP, "
             "compared statement by statement with a plaintext database that enforces the constraints")
LEVEL_NOTE = ("Both sides are simulated MySQL servers enforcing PRIMARY KEY, UNIQUE, FOREIGN KEY and the names of indexes. "
              "ALTER is generated with any letter case, whitespace and back quotes; spellings outside the supported forms "
              "may be refused, but then must change nothing.")
RULE = "a constraint was in force and at least one later statement was refused because of it on both sides"
ASSUMPTIONS = ["a foreign key and the column it refers to have the same type and, if encrypted, the same cipher key",
               "indexes without a name are not dropped by name"]

TABLES = [("t", "p"), ("child", "parent"), ("Alter_1", "tableau"), ("adds", "keys1"), ("t2", "t"), ("order1", "Order1")]
COLS = [["a", "b", "c"], ["id", "idx", "key1"], ["A_1", "primaryx", "foreign_id"], ["col", "列", "col2"]]
VALS = {"int": ["0", "1", "2", "-1"], "varchar": ["'a'", "'b'", "''", "'ab'", "'A'"]}


@st.composite
def column(draw, name, kind=None, key=None):
    kind = kind or draw(st.sampled_from(["int", "varchar", "varchar"]))
    c = {"name": name, "type": ["int"] if kind == "int" else ["varchar", 20], "enc": None}
    if key is None:
        key = draw(st.sampled_from(["", "k1", "k2"]))
    if key:
        c["enc"] = {"key": key, "fuzzy": draw(st.booleans()) and kind == "varchar"}
    return c


def spell(draw, words, strict):
    """the words with whitespace and letter case; words in back quotes or brackets keep their case"""
    out = ""
    if draw(st.integers(0, 4)) == 0:
        out += draw(st.sampled_from([" ", "\n", "\t "]))
    style = draw(st.sampled_from(["lower", "upper", "mixed"]))
    ws = draw(st.sampled_from([[" "], [" "], [" ", "  ", "\t", "\n", " \r\n "]]))
    for i, w in enumerate(words):
        kw = w.startswith("!")
        w = w.lstrip("!")
        if kw:
            w = w.lower() if style == "lower" else w.upper() if style == "upper" else \
                "".join(draw(st.sampled_from([x.lower(), x.upper()])) for x in w)
        tight = w in "()," or (i and words[i - 1] in "(,")
        if i and (not tight or draw(st.integers(0, 2)) == 0):
            out += draw(st.sampled_from(ws))
        out += w
    return out + draw(st.sampled_from(["", "", "", ";", " ;", "\n"]))


@st.composite
def alter(draw, case):
    """(sql, supported): one ALTER"""
    who = draw(st.integers(0, 1))
    s = case["tables"][who]
    t = s["table"]
    cols = [c["name"] for c in s["cols"]]
    supported = True

    def name(n, always=False):
        nonlocal supported
        k = draw(st.integers(0, 9))
        if k == 0 or (k == 1 and always):
            if not always:
                supported = False
            return "`%s`" % n
        return n
    tn = name(t, True)
    kind = draw(st.sampled_from(["pk", "pk", "fk", "fk", "index", "unique", "unique", "fulltext", "droppk", "dropfk",
                                 "dropindex", "odd"]))
    if kind == "pk":
        some = draw(st.lists(st.sampled_from(cols), min_size=1, max_size=2, unique=True))
        if len(some) > 1:
            supported = False
        inner = [x for n in some for x in (name(n), ",")][:-1]
        w = ["!alter", "!table", tn, "!add", "!primary", "!key", "("] + inner + [")"]
    elif kind == "fk":
        w = ["!alter", "!table", name(case["tables"][0]["table"], True), "!add", "!constraint", name(draw(st.sampled_from(["f1", "f2"]))),
             "!foreign", "!key", "(", name(case["fk"][0]), ")", "!references", name(case["tables"][1]["table"]), "(",
             name(case["fk"][1]), ")"]
    elif kind in ("index", "unique", "fulltext"):
        c = draw(st.sampled_from(cols))
        if kind == "fulltext" and s["cols"][cols.index(c)]["type"][0] == "int":
            kind = "index"
        w = ["!alter", "!table", tn, "!add", "!" + kind, name(draw(st.sampled_from(["i1", "i2", "u1"]))), "(", name(c), ")"]
        if kind == "unique" and draw(st.integers(0, 3)) == 0:
            w.insert(5, draw(st.sampled_from(["!key", "!index"])))
            supported = False
    elif kind == "droppk":
        w = ["!alter", "!table", tn, "!drop", "!primary", "!key"]
    elif kind == "dropfk":
        w = ["!alter", "!table", name(case["tables"][0]["table"], True), "!drop", "!foreign", "!key",
             name(draw(st.sampled_from(["f1", "f2"])))]
    elif kind == "dropindex":
        w = ["!alter", "!table", tn, "!drop", "!index", name(draw(st.sampled_from(["i1", "i2", "u1"])))]
    else:
        supported = False
        c = draw(st.sampled_from(cols))
        return draw(st.sampled_from([
            "ALTER TABLE {t} ADD PRIMARY KEY ({c}), ADD INDEX i1 ({c})", "ALTER TABLE {t} /* x */ DROP PRIMARY KEY",
            "ALTER TABLE {t} ADD UNIQUE ({c})", "ALTER TABLE {t} ADD PRIMARY KEY (nosuch)", "ALTER TABLE nosuch DROP PRIMARY KEY",
            "ALTER TABLE {t} DROP COLUMN {c}", "ALTER IGNORE TABLE {t} ADD UNIQUE u1 ({c})", "ALTER TABLE {t} DROP KEY i1",
            "ALTER TABLE {t} ADD PRIMARY KEY ({c}) x", "ALTER TABLE x{t} ADD PRIMARY KEY ({c})",
            "ALTER TABLE {t} ADD INDEX i1 (nosuch)"])).format(t=gen.q(t), c=c), supported
    return spell(draw, w, supported), supported


@st.composite
def histories(draw):
    child, parent = draw(st.sampled_from(TABLES))
    cn, pn = draw(st.sampled_from(COLS)), draw(st.sampled_from(COLS))
    if child.lower() == parent.lower():
        parent += "p"
    pcols = [draw(column(n)) for n in pn[:draw(st.integers(2, 3))]]
    ref = draw(st.integers(0, len(pcols) - 1))
    rc = pcols[ref]
    ccols = [draw(column(cn[0], rc["type"][0], rc["enc"]["key"] if rc["enc"] else ""))] + \
        [draw(column(n)) for n in cn[1:draw(st.integers(2, 3))]]
    if rc["enc"]:
        ccols[0]["enc"]["fuzzy"] = draw(st.booleans()) and rc["type"][0] == "varchar"
    case = {"tables": [{"table": child, "cols": ccols}, {"table": parent, "cols": pcols}], "fk": [ccols[0]["name"], rc["name"]]}
    # keys declared with the tables
    for w, s in enumerate(case["tables"]):
        cons, names = [], [c["name"] for c in s["cols"]]
        k = draw(st.sampled_from([None, "attr", "table", "named", "two"]))
        target = draw(st.sampled_from(names))
        if w == 1 and draw(st.booleans()):
            target = rc["name"]
        if k == "attr":
            s["pkattr"] = target
        elif k == "table":
            cons.append("PRIMARY KEY (%s)" % gen.q(target))
        elif k == "named":
            cons.append("CONSTRAINT pk1 PRIMARY KEY (%s)" % gen.q(target))
        elif k == "two":
            cons.append("PRIMARY KEY (%s)" % ", ".join(gen.q(n) for n in draw(st.permutations(names))[:2]))
        u = draw(st.sampled_from([None, None, None, "attr", "table", "key"]))
        target = draw(st.sampled_from(names))
        if u == "attr":
            s["uattr"] = target
        elif u:
            cons.append(("UNIQUE (%s)" if u == "table" else "UNIQUE KEY u1 (%s)") % gen.q(target))
        if w == 0 and draw(st.integers(0, 3)) == 0:
            cons.append("CONSTRAINT f1 FOREIGN KEY (%s) REFERENCES %s (%s)" % (gen.q(ccols[0]["name"]), gen.q(parent),
                                                                            gen.q(rc["name"])))
        s["cons"] = draw(st.permutations(cons))
    ops = []
    for _ in range(draw(st.integers(4, 16))):
        k = draw(st.sampled_from(["insert"] * 7 + ["alter"] * 6 + ["delete", "update", "drop", "restart"]))
        if k == "alter":
            sql, ok = draw(alter(case))
            ops.append([sql, "supported" if ok else "perhaps"])
            continue
        if k == "restart":
            ops.append([None, "restart"])
            continue
        s = case["tables"][draw(st.integers(0, 1))]

        def value(c):
            return "NULL" if draw(st.integers(0, 9)) == 0 else draw(st.sampled_from(VALS[c["type"][0]]))
        t = gen.q(s["table"])
        if k == "insert":
            ops.append(["INSERT INTO %s (%s) VALUES %s" % (t, ", ".join(gen.q(c["name"]) for c in s["cols"]), ", ".join(
                "(" + ", ".join(value(c) for c in s["cols"]) + ")" for _ in range(draw(st.sampled_from([1, 1, 2]))))), "row"])
        elif k == "drop":
            ops.append(["DROP TABLE %s" % t, "row"])
        else:
            c, d = draw(st.sampled_from(s["cols"])), draw(st.sampled_from(s["cols"]))
            v = draw(st.sampled_from(VALS[c["type"][0]]))
            if k == "delete":
                ops.append(["DELETE FROM %s WHERE %s = %s" % (t, gen.q(c["name"]), v), "row"])
            else:
                ops.append(["UPDATE %s SET %s = %s WHERE %s = %s" % (t, gen.q(d["name"]), value(d), gen.q(c["name"]), v), "row"])
    case["ops"] = ops
    return case


def create_sql(s):
    parts = []
    for c in s["cols"]:
        p = gen.q(c["name"]) + " " + c["type"][0] + ("(%d)" % c["type"][1] if len(c["type"]) > 1 else "")
        if s.get("uattr") == c["name"]:
            p += " UNIQUE"
        if s.get("pkattr") == c["name"]:
            p += " PRIMARY KEY"
        parts.append(p)
    return "CREATE TABLE %s (%s)" % (gen.q(s["table"]), ", ".join(parts + s["cons"]))


CONSTRAINT = {1062, 1452, 1451, 1048, 3730}


def run(case, note):
    from vlib import minisql
    p = e2e.Pair()

    def both(sql, how, **kw):
        """True if it changed something"""
        rows, err = p.try_proxy(sql, **kw)
        if err is not None and how == "perhaps":
            note.label("odd spelling refused")
            return False
        try:
            p.refexec(re.sub(r"/\*.*?\*/", "", sql).rstrip().rstrip(";").rstrip())
            referr = None
        except minisql.SqlError as e:
            p.ref[p.db].rollback()
            referr = e
        if (err is None) != (referr is None):
            raise Violation("%s: %s on the proxy, %s on a plaintext database\n  tables: %s" % (
                short(sql, 400), "done" if err is None else "refused (%s)" % short(str(err), 200),
                "done" if referr is None else "refused (%s)" % referr, tables()))
        if referr is not None and how == "row" and referr.errno in CONSTRAINT:
            note.nontrivial()
            note.label("refused %d" % referr.errno)
        return referr is None

    def tables():
        return "; ".join(create_sql(s) for s in case["tables"])
    live = []
    for s in reversed(case["tables"]):          # the parent first
        if both(create_sql(s), "perhaps" if s["cons"] or s.get("uattr") else "supported", encrypted=gen.encrypted_columns(s)):
            live.append(s)
    for sql, how in case["ops"]:
        if how == "restart":
            p.w.restart()
            continue
        done = both(sql, how)
        if done and sql.startswith("DROP TABLE"):
            live = [s for s in live if gen.q(s["table"]) != sql[11:]]
        elif done and how != "row":
            note.label("altered")
        if how == "row":
            for s in live:
                p.check_table(s, "table contents after " + short(sql, 300))
    # in the end: every column that must be unique still is, and every other takes equal values
    for s in live:
        p.check_table(s, "table contents in the end")
    for s in live:
        for c in s["cols"]:
            row = ["NULL" if x is not c else VALS[c["type"][0]][0] for x in s["cols"]]
            sql = "INSERT INTO %s (%s) VALUES (%s)" % (gen.q(s["table"]), ", ".join(gen.q(x["name"]) for x in s["cols"]),
                                                       ", ".join(row))
            both(sql, "row")
            both(sql, "row")


SUBS = [Sub("keys", histories, run, quick=600, thorough=15000, shards=(8, 16))]
