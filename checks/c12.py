"""C12: parsing, formatting and parsing again changes nothing."""
import copy
import re
from collections import Counter

from vlib import sqlgen
from vlib.core import Sub, Violation, short

PROPERTY = "C12"
TECHNIQUE = "round-trip property testing over generated statements, with an independent token-level comparison"
LEVEL_NOTE = ("Token comparison: the formatted text must contain the same names, literals, operators and keywords in the "
              "same order as the generated text, up to parentheses, commas, AS, ASC, letter case of keywords and the "
              "spelling of numbers and operators (!= and <>, INNER JOIN and JOIN).")
RULE = "the parser accepted the statement"
ASSUMPTIONS = ["numbers with an exponent are written with a point: the tree keeps integers with an exponent as integers"]

TOKEN = re.compile(r"""
    (?P<space>\s+|/\*.*?\*/|--[^\n]*|\#[^\n]*)
  | (?P<str>'(?:[^']|'')*')
  | (?P<dq>"(?:[^"]|"")*")
  | (?P<bq>`(?:[^`]|``)*`)
  | (?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)
  | (?P<word>[^\W\d]\w*)
  | (?P<op><=>|<>|!=|<=|>=|\|\||<<|>>|[-+*/%&|^~=<>().,;])
""", re.X | re.S)
IGNORED = {"(", ")", ",", ";", "AS", "ASC"}
SYNONYM = {"!=": "<>", "==": "="}


def tokens(sql, dialect):
    out, i = [], 0
    while i < len(sql):
        m = TOKEN.match(sql, i)
        if not m:
            raise AssertionError("cannot tokenize %r at %d" % (sql, i))
        i = m.end()
        kind, t = m.lastgroup, m.group()
        if kind == "space":
            continue
        if kind == "dq":
            kind = "str" if dialect == "mysql" else "bq"
        if kind in ("str", "bq"):
            body = t[1:-1].replace(t[0] * 2, t[0])
            out.append(("string" if kind == "str" else "name", body))
        elif kind == "num":
            while float(t) == 0 and out and out[-1] == ("op", "-"):    # -0 is kept as 0
                out.pop()
            out.append(("number", repr(float(t))))
        elif kind == "word":
            if t.upper() not in IGNORED:
                out.append(("name", t))
        elif t not in IGNORED:
            out.append(("op", SYNONYM.get(t, t)))
    return out


def run(case, note):
    import sql_parsing as P
    dialect = "ansi" if case["profile"] == "sqlite-ansi" else "mysql"
    parse = P.parse if dialect == "ansi" else P.parse_mysql
    kw = {} if dialect == "ansi" else {"ansi_quotes": False}
    sql = case["sql"]
    try:
        tree = parse(sql)
    except Exception:
        note.excluded("refused by the parser")
        return
    before = copy.deepcopy(tree)
    text = P.format(tree, **kw)
    if tree != before:
        raise Violation("formatting %s changed its tree from\n%s\nto\n%s" % (sql, before, tree))
    try:
        again = parse(text)
    except Exception as e:
        raise Violation("%s\nis formatted as\n%s\nwhich the parser refuses: %s" % (sql, text, short(str(e), 200)))
    if again != tree:
        raise Violation("%s\nis formatted as\n%s\nwhich is parsed differently:\n%s\n%s" % (sql, text, tree, again))
    text2 = P.format(again, **kw)
    if text2 != text:
        raise Violation("formatting %s again gives %s" % (text, text2))
    if "simple case" in case["uses"]:           # CASE x WHEN y is kept as CASE WHEN x = y: the meaning is left to C13
        note.nontrivial()
        note.label(*case["uses"])
        return
    want, got = normal(sql, dialect), normal(text, dialect)
    # a query IS NOT NULL is kept as NOT (query IS NULL), because EXISTS of a query is something else
    if "insert" in case["uses"] or {"null", "subquery"} <= set(case["uses"]):
        same = Counter(want) == Counter(got)
    else:
        same = want == got
    if not same:
        lost, extra = Counter(want) - Counter(got), Counter(got) - Counter(want)
        raise Violation("%s\nis formatted as\n%s\nlost: %s invented: %s" % (
            sql, text, sorted(lost.elements()), sorted(extra.elements())))
    note.nontrivial()
    note.label(*case["uses"])


def normal(sql, dialect):
    out = []
    for kind, t in tokens(sql, dialect):
        if dialect == "ansi" and t.upper() in ("||", "CONCAT") and kind != "string":
            continue                            # CONCAT of two values is written with the operator
        if kind == "name":
            out.append(t.upper())
        elif kind == "op":
            out.append(t)
        else:
            out.append((kind, t))
    for i in range(len(out) - 3, -1, -1):       # ROWS n PRECEDING is short for a BETWEEN
        if out[i] in ("ROWS", "RANGE") and out[i + 1] != "BETWEEN" and out[i + 2] in ("PRECEDING", "FOLLOWING", "ROW"):
            out[i + 1:i + 3] = ["BETWEEN"] + out[i + 1:i + 3] + ["AND", "CURRENT", "ROW"]
    return [str(x) for x in out]


SUBS = [Sub("ansi", lambda: sqlgen.statements("sqlite-ansi"), run, quick=1500, thorough=60000, shards=(8, 16)),
        Sub("mysql", lambda: sqlgen.statements("mysql"), run, quick=2000, thorough=80000, shards=(8, 16))]
