"""C09: LIKE on a fuzzy column finds every row that contains the searched text."""
from hypothesis import strategies as st

from vlib import e2e, gen
from vlib.core import Sub, Violation, short

PROPERTY = "C09"
TECHNIQUE = "property-based testing: generated texts and patterns cut from them, against matching on the plaintext"
LEVEL_NOTE = "Tables of generated texts searched through the real proxy over an in-memory MySQL stand-in."
RULE = "the pattern matched at least one row and missed at least one"
ASSUMPTIONS = ["segments contain no _, % or backslash (LIKE wildcards have no meaning inside encrypted words)",
               "texts have at most 60 bytes: longer ones do not fit the fuzzy column (C25)"]

WORDS = ["腾讯公司", "大华光", "数据", "abc", "abcabc", "abca", "xyz", "Abc", "123", "12345", "aaa", "aaaa", "ééé", "foo bar",
         "a-b-c", "x.y@z", "北京上海", "a1b2", "tests", "est", "😀😀a", "١٢٣", "²³x", "100", "007", "   ", "    ", "---", "\t\t\t", " a  b"]


@st.composite
def text(draw, mixed):
    n = draw(st.integers(0, 4))
    sep = draw(st.sampled_from(["", "", " ", "-", ".", "%", "_", "'", "\\", "  ", "   ", "    "])) if mixed else ""
    parts = [draw(st.one_of(st.sampled_from(WORDS if mixed else [w for w in WORDS if w.isalnum()]),
                            st.text(st.sampled_from("ab"), max_size=5), st.text(st.sampled_from("中文字"), max_size=4),
                            st.text(st.sampled_from(gen.ALPHA), max_size=6),
                            *([st.text(st.sampled_from(" a-"), min_size=3, max_size=7)] if mixed else []))) for _ in range(n)]
    s = sep.join(parts)
    return s.encode("utf8")[:60].decode("utf8", "ignore")


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["varchar"] * 4 + ["char", "int"]))
    enc = {"key": draw(gen.KEYS), "fuzzy": True}
    if draw(st.integers(0, 5)) == 0:
        enc["sm4"], enc["sm4_key"] = True, draw(gen.KEYS)
    mixed = draw(st.booleans())
    if kind == "int":
        vals = draw(st.lists(st.one_of(gen.ints(), st.integers(100, 999), st.integers(120000, 129999)), min_size=1,
                             max_size=10))
        t = ["int"]
    else:
        vals = draw(st.lists(text(mixed), min_size=1, max_size=10))
        t = [kind, 120]
    if draw(st.integers(0, 3)) == 0:
        vals.append(None)
    pool = [str(v) for v in vals if v is not None]
    pats = []
    for _ in range(draw(st.integers(1, 4))):
        src = draw(st.sampled_from(pool))
        form = draw(st.sampled_from(["in", "in", "in", "pre", "suf", "two", "two", "exact", "short", "three", "presuf"]))

        def seg(lo=0, hi=None):
            hi = len(src) if hi is None else hi
            if hi - lo < 3 or draw(st.integers(0, 9)) == 0:
                return draw(st.sampled_from(WORDS)), hi
            a = draw(st.integers(lo, hi - 3))
            b = draw(st.integers(a + 3, min(hi, a + 9)))
            return src[a:b], b
        if form == "in":
            p = "%" + seg()[0] + "%"
        elif form == "pre":
            p = (src[:draw(st.integers(3, 8))] if draw(st.integers(0, 4)) else seg()[0]) + "%"
        elif form == "suf":
            p = "%" + (src[-draw(st.integers(3, 8)):] if draw(st.integers(0, 4)) else seg()[0])
        elif form == "exact":
            p = src if draw(st.integers(0, 3)) else seg()[0]
        elif form == "presuf":
            p = src[:draw(st.integers(3, 6))] + "%" + src[-draw(st.integers(3, 6)):]
        elif form == "short":
            p = draw(st.sampled_from(["%ab%", "ab%", "%中%", "%abc%de%", "a", "%a%abc%"]))
        else:
            a, e = seg(0, max(3, len(src) // 2)) if len(src) >= 6 else seg()
            b, e2 = seg(e)
            p = draw(st.sampled_from(["%", ""])) + a + "%" + b + draw(st.sampled_from(["%", ""]))
            if form == "three":
                p = "%" + a + "%" + b + "%" + seg(e2)[0] + "%"
        pats.append({"p": p, "not": form == "in" and draw(st.integers(0, 5)) == 0,
                     "and": draw(st.integers(0, 5)) == 0, "kw": draw(st.sampled_from(["LIKE", "like", "Like"]))})
    ops = []
    if draw(st.booleans()):
        ops.append(["delete", draw(st.integers(0, 9))])
    if draw(st.booleans()) and kind != "int":
        ops.append(["update", draw(st.integers(0, 9)), draw(text(mixed))])
    return {"type": t, "enc": enc, "vals": vals, "pats": pats, "ops": ops}


def lit(v):
    return gen.lit(v.replace("\\", "\\\\") if isinstance(v, str) else v)


def cls(s):
    return 3 if s.isalnum() else 2


def segments(p):
    return [x for x in p.split("%") if x]


def like(text, p):
    """LIKE with % only"""
    parts = p.split("%")
    if len(parts) == 1:
        return text == p
    if not text.startswith(parts[0]):
        return False
    pos = len(parts[0])
    for x in parts[1:-1]:
        k = text.find(x, pos)
        if k < 0:
            return False
        pos = k + len(x)
    return len(text) - pos >= len(parts[-1]) and text.endswith(parts[-1])


def lacks(text, p):
    """what of the pattern the text does not have, apart from overlaps"""
    parts = p.split("%")
    for x in parts:
        if x not in text:
            return "lacks %r" % x
    if not text.startswith(parts[0]):
        return "does not start with %r" % parts[0]
    if not text.endswith(parts[-1]):
        return "does not end with %r" % parts[-1]
    return None


def run(case, note):
    s = {"table": "t", "cols": [{"name": "id", "type": ["int"], "enc": None},
                                {"name": "s", "type": case["type"], "enc": case["enc"]},
                                {"name": "p", "type": ["varchar", 120], "enc": None}]}
    p = e2e.Pair()
    p.create(s)
    rows = [[i, v, None if v is None else str(v)] for i, v in enumerate(case["vals"])]
    p.write("INSERT INTO t VALUES " + ", ".join("(%s)" % ", ".join(map(lit, r)) for r in rows))
    cur = {r[0]: r[1] for r in rows}
    for o in case["ops"]:
        if o[0] == "delete":
            p.write("DELETE FROM t WHERE id = %d" % o[1])
            cur.pop(o[1], None)
        else:
            p.write("UPDATE t SET s = %s WHERE id = %d" % (lit(o[2]), o[1]))
            if o[1] in cur:
                cur[o[1]] = o[2]
    for q in case["pats"]:
        pat = q["p"]
        segs = segments(pat)
        if any(c in x for x in segs for c in "_\\"):
            continue
        cond = "s %s %s" % (q["kw"], lit(pat))
        if q["not"]:
            cond = "NOT (%s)" % cond
        if q["and"]:
            cond += " AND id >= 2"
        sql = "SELECT id, s FROM t WHERE " + cond
        got, err = p.try_proxy(sql)
        if any(len(x) < 3 for x in segs):
            if err is None:
                raise Violation("a segment shorter than three characters is not refused: %s answered %s" % (sql, short(got)))
            note.label("short_segment_refused")
            continue
        if err is not None:
            raise Violation("refused or failed: %s: %s\n  statement: %s" % (type(err).__name__, short(str(err)), sql))
        ids = [r[0] for r in got]
        if len(set(ids)) != len(ids):
            raise Violation("rows answered twice: %s\n  statement: %s" % (short(got), sql))
        hit = miss = 0
        for i, v in cur.items():
            if v is None or q["and"] and i < 2:
                if i in ids:
                    raise Violation("row %d (%r) must not be found by %s" % (i, v, sql))
                continue
            t = str(v)
            same = all(cls(x) == cls(t) for x in segs)
            inside = i in ids
            if inside != any(r == (i, v) for r in got):
                raise Violation("row %d is %r but answered as %s" % (i, v, short(got)))
            if q["not"]:
                if same and inside == like(t, pat):
                    raise Violation("%r is %sfound by %s" % (v, "" if inside else "not ", sql))
                continue
            if inside:
                why = lacks(t, pat)
                if why:
                    raise Violation("%r is found by %s although it %s" % (v, sql, why))
                hit += 1
            else:
                miss += 1
                if like(t, pat) and same:
                    raise Violation("%r matches but is not found by %s" % (v, sql))
        note.nontrivial(hit and miss)
        note.label("%d_segments" % len(segs), "hit" if hit else "no_hit")
        for x in segs:
            note.label("class_%d" % cls(x))


SUBS = [Sub("like", case, run, quick=800, thorough=25000, shards=(8, 16))]
