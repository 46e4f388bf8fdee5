"""C24: a batch load leaves the rows that single inserts would."""
import csv
import gc
import os
import sys

from hypothesis import strategies as st

from vlib import boot, e2e, gen
from vlib.core import Sub, Violation, short

PROPERTY = "C24"
TECHNIQUE = ("property-based differential testing: generated schemas and CSV files loaded in a batch through the proxy, compared "
             "with single inserts into a plaintext database, by content and by queries on the encrypted forms")
LEVEL_NOTE = ("pandas is not installed: the checker stands in for read_csv with the same type inference, missing value and chunk "
              "rules, and makes the chunks small so that files cross their boundaries.")
RULE = "the file has several lines, or crosses a chunk, with an encrypted column"
ASSUMPTIONS = ["fields of numeric columns are numbers; every line has a field for each column named"]
BUDGET = {"quick": 60, "thorough": 900}

LOOKALIKE = ["NA", "null", "NULL", "nan", "", "007", "1e5", "1.0", "True", " a", "a ", "N/A", "-0", "0x10", "1,2", 'say "x"',
             "line\nbreak", "tab\t", "'", "\\", "%s", "%(a)s", "密", "12", "3.50", "abcdefg", "0012345"]


@st.composite
def cases(draw):
    s = draw(gen.schema(key=True, max_cols=5, plain_kinds=["int", "varchar", "varchar", "text", "bigint", "decimal", "double",
                                                          "datetime"]))
    cols = [i for i, c in enumerate(s["cols"]) if not c.get("auto")]
    keep = [i for i in cols if s["cols"][i].get("notnull") or s["cols"][i].get("pk")]
    if draw(st.integers(0, 2)) == 0:
        cols = [i for i in cols if i in keep or draw(st.booleans())] or cols[:1]
    cols = draw(st.permutations(cols))
    lines = []
    used = set()
    for _ in range(draw(st.integers(0, 7))):
        line = []
        for i in cols:
            c = s["cols"][i]
            v = draw(gen.values(c))
            k = c["type"][0]
            if k in ("varchar", "char", "text") and draw(st.integers(0, 2)) == 0:
                n = c["type"][1] if k != "text" else 100
                v = draw(st.sampled_from([x for x in LOOKALIKE if len(x.encode()) <= n] or [""]))
                v = v.rstrip(" ") if k == "char" else v
            if isinstance(v, str):
                v = v.replace("\r", "")
            line.append(v)
        lines.append(line)
    out = {"schema": s, "cols": list(cols), "lines": lines, "chunk": draw(st.sampled_from([None, 1, 2, 3, 5])),
           "quoting": draw(st.sampled_from(["minimal", "all"])), "end": draw(st.sampled_from(["\n", "\r\n"]))}
    out["queries"] = [draw(gen.select(s, [])) for _ in range(2)]
    out["bad"] = draw(st.integers(0, 5)) == 0
    return out


def text(c, v, line):
    if isinstance(v, str):
        return v
    return gen.lit(v)


def case(case, note):
    p = e2e.Pair()
    pd = sys.modules["pandas"]
    s = case["schema"]
    p.create(s)
    named = [s["cols"][i] for i in case["cols"]]
    lines = list(case["lines"])
    ctl = p.w.controller()
    path = os.path.join(boot.SCRATCH, "batch.csv")

    def load(lines, chunk):
        with open(path, "w", newline="", encoding="utf8") as f:
            w = csv.writer(f, lineterminator=case["end"],
                           quoting=csv.QUOTE_ALL if case["quoting"] == "all" else csv.QUOTE_MINIMAL)
            for line in lines:
                w.writerow([text(c, v, line) for c, v in zip(named, line)])
        info = p.w.info()
        info["batch_process"] = {"columns": [c["name"] for c in named], "table": s["table"], "input": path}
        pd.CHUNK = chunk
        try:
            return ctl.ControllerDatabase(info).do_query()
        finally:
            pd.CHUNK = None
            os.remove(path)

    # lines that break a key are for single inserts to refuse
    clean = []
    ref = p.ref[p.db]
    for line in lines:
        sql = "INSERT INTO %s(%s) VALUES (%s)" % (gen.q(s["table"]), ", ".join(gen.q(c["name"]) for c in named),
                                                 ", ".join(gen.lit(v) for v in line))
        try:
            p.refexec(sql)
        except Exception:
            ref.rollback()
            continue
        clean.append(line)
    if any(c["enc"] for c in named) and len(clean) > 1:
        note.nontrivial()
    if case["chunk"] and len(clean) > case["chunk"]:
        note.label("crosses a chunk")
    try:
        load(clean, case["chunk"])
    except Exception as e:
        raise Violation("the batch failed: %s: %s\n  columns %s, lines %s" % (
            type(e).__name__, short(str(e), 300), [c["name"] for c in named], short(clean)))
    p.check_table(s, "rows of a batch (columns %s)" % [c["name"] for c in named])
    # found by the other forms of the values as well
    for c, i in zip(named, case["cols"]):
        if not clean:
            break
        for line in clean[:3]:
            v = line[case["cols"].index(i)]
            if v is None or isinstance(v, float) and not c["enc"]:
                continue
            got, want = p.select("SELECT * FROM %s WHERE %s = %s" % (gen.q(s["table"]), gen.q(c["name"]), gen.lit(v)))
            if not e2e.multiset_equal(got, want):
                raise Violation("loaded rows with %s = %s: %s, plaintext %s" % (c["name"], gen.lit(v), short(got), short(want)))
            if gen.ranged(c):
                got, want = p.select("SELECT COUNT(*) FROM %s WHERE %s >= %s" % (
                    gen.q(s["table"]), gen.q(c["name"]), gen.lit(v)))
                if not e2e.multiset_equal(got, want):
                    raise Violation("loaded rows with %s >= %s: %s, plaintext %s" % (c["name"], gen.lit(v), got, want))
            if c["enc"] and c["enc"].get("fuzzy") and c["type"][0] in ("varchar", "char") and isinstance(v, str) \
                    and len(v) >= 5 and v.isascii() and (v.isdigit() or v.isalpha() and v.islower()):
                got, want = p.select("SELECT COUNT(*) FROM %s WHERE %s LIKE '%%%s%%'" % (
                    gen.q(s["table"]), gen.q(c["name"]), v[:5]))
                if got[0][0] < want[0][0]:
                    raise Violation("loaded rows with %s LIKE '%%%s%%': %s, plaintext %s" % (c["name"], v[:5], got, want))
                note.label("fuzzy")
        if c["enc"] and c["enc"].get("arithmetic") and c["type"][0] == "int":
            got, want = p.select("SELECT SUM(%s) FROM %s" % (gen.q(c["name"]), gen.q(s["table"])))
            if not e2e.multiset_equal(got, want):
                raise Violation("sum of loaded rows: %s, plaintext %s" % (got, want))
            note.label("arithmetic")
    for q in case["queries"]:
        p.compare(s, q)
    ints = [j for j, c in enumerate(named) if c["type"][0] == "int"]
    if case["bad"] and ints and clean and not any(c.get("pk") for c in s["cols"]):
        # a file that can not be loaded: reported, and its lines do not appear
        bad = [list(x) for x in clean[:2]]
        bad[-1][ints[0]] = "not a number"
        try:
            load(bad, None)
        except Exception:
            pass
        else:
            raise Violation("a line with a text for a number was loaded")
        gc.collect()        # the connection of the failed load is given back
        p.check_table(s, "rows after a batch that failed")
        note.label("failed batch")


SUBS = [
    Sub("batch", cases, case, quick=400, thorough=20000, shards=(8, 16)),
]
