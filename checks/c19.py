"""C19: generalizing a statement hides exactly its constants."""
import re

from hypothesis import strategies as st

from vlib import rawsql
from vlib.core import Sub, Violation, short

PROPERTY = "C19"
TECHNIQUE = ("metamorphic property testing: each statement is written twice with other constants, comments and whitespace, and must "
             "generalize to the same text, which an independent model of the statement's units predicts")
LEVEL_NOTE = ("Strings of any characters, numbers of any form. Digits in names are generalized too, percent signs and double quotes "
              "are dropped, and lists of several values are (XYZ): documented behaviour, which the model follows.")
RULE = "the statement has at least two constants"
ASSUMPTIONS = ["the lists of IN and VALUES have the same length in both statements",
               "whitespace is varied where there is some"]

MARK = "zqj"                                     # in every string constant


class G(rawsql.G):
    """constants are units of the kinds str and num without text"""

    def name(self):
        self.out.append(["name", self.pick("a", "b", "col", "Tab", "x_y", "naïve", "selecting", "列", "`a b`", "c2", "t1x", "inx", "xin", "values_",
                                           "`like`", "nN", "XYZ", "X", "N")])

    def literal(self):
        self.out.append(["num" if self.chance(1) else "str", ""])

    def cond(self):
        k = self.draw(st.integers(0, 9))
        if k == 7:
            self.column()
            self.kw("like")
            self.out.append(["like", ""])
        elif k == 6:
            self.column()
            self.kw("in")
            self.p("(")
            self.listed(self.literal, 1, 4)
            self.p(")")
        elif k == 5:
            self.column()
            self.kw("between")
            self.literal()
            self.kw("and")
            self.literal()
        else:
            self.column()
            self.op(self.pick("=", "<", ">=", "<>", ">"))
            self.literal()

    def expr(self):
        self.column() if self.chance(1) else self.literal()

    def row(self):
        self.p("(")
        self.listed(self.literal, 1, 3)
        self.p(")")

    def where(self):
        super().where()
        if self.chance(3):
            self.kw(self.pick("and", "or"))
            like = self.pick("a", "b", "t.a")
            n = self.draw(st.integers(1, 3))
            w = self.pick("and", "or", "OR")
            for i in range(n):
                if i:
                    self.out.append(["kw", w])
                self.out.append(["name", like])
                self.out.append(["kw", "LIKE"])
                self.out.append(["like", ""])


def string(draw, like=False):
    parts = draw(st.lists(st.sampled_from(["a", " ", "''", "\\'", "\\\\", "--", "/*", "*/", "#", "# ", ";", "\n", "(", ")", ",", "%", "7", "42", "é",
                                           "语", '"', "`", " in (1,2)", " LIKE ", "  ", "\t", "X", "N", "_", "select", "\\n", "and b LIKE "]), max_size=4))
    body = MARK + "".join(parts) + draw(st.sampled_from(["", "", MARK]))
    if like:
        body = draw(st.sampled_from(["%", "", "%%"])) + body + draw(st.sampled_from(["%", "", "%a%"]))
    return "'" + body + "'"


def number(draw):
    return draw(st.one_of(st.integers(0, 10 ** 20).map(str), st.sampled_from(["0", "7", "42", "007"])))


def write(draw, units, gaps):
    out = ""
    for (kind, t), gap in zip(units, gaps):
        if gap:
            out += draw(st.sampled_from([" ", " ", "  ", "\n", "\t", " \r\n ", " /* %s 'x' 7 */ " % MARK, " -- it's %s\n" % MARK, " /*%s*/" % MARK + " ", "\n# c %s\n" % MARK]))
        if kind == "str":
            out += string(draw)
        elif kind == "like":
            out += string(draw, True)
        elif kind == "num":
            out += number(draw)
        else:
            out += t
    return out


@st.composite
def pairs(draw):
    g = G(draw, 1)
    g.statement()
    units = [u if u[0] not in ("int", "float", "hex") else ["num", ""] for u in g.out]
    units = [["num", ""] if k == "place" else ["str", ""] if k == "str" else [k, " ".join(t.split()) if k == "kw" else t] for k, t in units]
    gaps = []
    last = None
    for k, t in units:
        if last is None:
            gaps.append(False)
        elif k == "dot" or last[0] == "dot" or last[0] == "func":
            gaps.append(False)
        elif k == "punct" or last[0] == "punct":
            gaps.append(draw(st.booleans()))
        else:
            gaps.append(True)
        last = [k, t]
    return {"units": units, "gaps": gaps, "texts": [write(draw, units, gaps), write(draw, units, gaps)]}


WORD = re.compile(r"(?P<com>/\*.*?\*/|--[^\n\r]*|\# [^\n\r]*)|(?P<str>'(?:''|\\\\|\\'|[^'])*')|(?P<word>[\w`]+)|(?P<sign>\S)", re.S)


def words(text, comments):
    """the words, strings and signs of the text; its comments too, or not"""
    return [m.group(0).strip() for m in WORD.finditer(text) if comments or m.lastgroup != "com"]


def model(units, gaps):
    """the generalized text before lists and LIKEs are shortened"""
    out = ""
    for (kind, t), gap in zip(units, gaps):
        if gap:
            out += " "
        out += "X" if kind in ("str", "like") else "N" if kind == "num" else re.sub(r"-?[0-9]+", "N", t.replace('"', "").replace("%", ""))
    out = re.sub(r"\s+", " ", out)
    out = re.sub(r"\s?((?i:or|and) \S+ (?i:like) X)(?:\s?\1)*", r" \1 ...", out)     # the same LIKE again and again
    return re.sub(r" (IN|VALUES)\s*\(([^,()]+,[^()]+)\)", r" \1 (XYZ)", out, flags=re.I).strip()


def run(case, note):
    from scheduler.compile.parser import Parser
    for text in case["texts"]:
        got = Parser(text).without_comments
        if words(got, True) != words(text, False):
            raise Violation("%r without its comments is\n%r" % (text, got))
        found = [re.sub(r"\s+", "", c) for c in Parser(text).comments]
        want = [re.sub(r"\s+", "", m.group(0)) for m in WORD.finditer(text) if m.lastgroup == "com"]
        if found != want:
            raise Violation("the comments of %r are %s, not %s" % (text, found, want))
    a, b = (Parser(t).generalize for t in case["texts"])
    if a != b:
        raise Violation("%r and\n%r are generalized to\n%r and\n%r" % (case["texts"][0], case["texts"][1], a, b))
    if MARK in a or re.search(r"\d", a):
        raise Violation("%r is generalized to\n%r, which has its constants" % (case["texts"][0], a))
    again = Parser(a).generalize
    if again != a:
        raise Violation("%r is generalized to\n%r, and that to\n%r" % (case["texts"][0], a, again))
    short_like = any(k == "like" for k, _ in case["units"])
    want = model(case["units"], case["gaps"])
    if a != want:
        raise Violation("%r is generalized to\n%r, not to\n%r" % (case["texts"][0], a, want))
    if len([1 for k, _ in case["units"] if k in ("str", "num", "like")]) >= 2:
        note.nontrivial()
    if short_like:
        note.label("LIKE")


SUBS = [Sub("pairs", pairs, run, quick=4000, thorough=100000, shards=(4, 16))]
