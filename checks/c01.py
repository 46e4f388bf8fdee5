"""C01: what is stored through the proxy is read back unchanged."""
from hypothesis import strategies as st

from vlib import e2e, gen
from vlib.core import Sub, Violation, short

PROPERTY = "C01"
TECHNIQUE = "property-based testing: generated schemas, rows and INSERT forms, round trip against a reference database"
LEVEL_NOTE = ("Generated round trips of whole tables through the real proxy code over an in-memory MySQL stand-in; "
              "trusts that stand-in (strict SQL mode, binary collation) and the input domain stated in DESIGN.md.")
RULE = "at least one row with a non-NULL value in an encrypted column was inserted and read back"
ASSUMPTIONS = ["texts do not end in NUL", "texts fit the declared length in UTF-8 bytes; fuzzy texts have <= 60 bytes",
               "encrypted numbers lie within the range of the order-preserving cipher after encoding",
               "text literals are in single quotes with doubled quotes; backslashes are covered by C16"]


@st.composite
def case(draw):
    s = draw(gen.schema(max_cols=6, names=gen.NAMES))
    data = draw(gen.rows(s, 1, 8))
    stmts, k = [], 0
    n = len(s["cols"])
    while k < len(data):
        m = draw(st.integers(1, 4))
        form = draw(st.integers(0, 3))
        cols = None
        if form == 1:
            cols = list(draw(st.permutations(range(n))))
        elif form >= 2:
            # leave out columns that have a default or may be NULL
            cols = [i for i, c in enumerate(s["cols"]) if "default" not in c and (c.get("notnull") or c.get("pk"))
                    and not c.get("auto") or draw(st.booleans())]
            if not cols:
                cols = [0]
            cols = list(draw(st.permutations(cols)))
        stmts.append({"rows": data[k:k + m], "cols": cols})
        k += m
    proj = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n))
    return {"schema": s, "inserts": stmts, "proj": proj}


def run(case, note):
    s = case["schema"]
    p = e2e.Pair()
    p.create(s)
    ok = enc = 0
    for ins in case["inserts"]:
        sql = gen.insert_sql(s, ins["rows"], ins["cols"])
        if p.write(sql):
            ok += len(ins["rows"])
            enc += sum(1 for r in ins["rows"] for i, c in enumerate(s["cols"]) if c["enc"] and r[i] is not None
                       and (ins["cols"] is None or i in ins["cols"]))
            note.label("rows_per_insert_%d" % len(ins["rows"]),
                       "no_column_list" if ins["cols"] is None else "column_list")
        else:
            note.label("insert_refused_by_both")
    want = p.check_table(s)
    cols = [s["cols"][i]["name"] for i in case["proj"]]
    sql = "SELECT %s FROM %s" % (", ".join(map(gen.q, cols)), gen.q(s["table"]))
    ans = p.proxy(sql)
    got = [tuple(r) for r in ans["result"]]
    ref = [tuple(r) for r in p.refexec(sql)[1]]
    if not e2e.multiset_equal(got, ref):
        raise Violation("projection differs: %s, plaintext %s\n  statement: %s" % (short(got), short(ref), sql))
    if want:
        if list(ans["columns"][0]) != cols:
            raise Violation("columns reported as %s, asked for %s" % (ans["columns"][0], cols))
        types = [s["cols"][i]["type"][0] for i in case["proj"]]
        if list(ans["columns"][1]) != types:
            raise Violation("column types reported as %s, declared %s" % (ans["columns"][1], types))
    # a second proxy process reads the same
    p.w.restart()
    got = p.w.rows("SELECT * FROM " + gen.q(s["table"]))
    if not e2e.multiset_equal(got, want):
        raise Violation("after a restart: %s, inserted %s" % (short(got), short(want)))
    note.nontrivial(ok and enc)
    note.label(*("type_%s_%s" % (c["type"][0], "enc" if c["enc"] else "plain") for c in s["cols"]))
    for c in s["cols"]:
        for o in ("fuzzy", "arithmetic", "sm4"):
            if c["enc"] and c["enc"].get(o):
                note.label("option_" + o)


SUBS = [Sub("roundtrip", case, run, quick=800, thorough=20000, shards=(8, 16))]
