"""C16: literals and identifiers survive parsing and formatting character by character."""
import re

from hypothesis import strategies as st

from vlib.core import Sub, Violation, short

PROPERTY = "C16"
TECHNIQUE = ("property-based testing: literals and names spelled from known values are put into statements; the tree and "
             "the formatted text must be those of the statement with a marker in their place, marker replaced by value")
LEVEL_NOTE = "The formatted text is read by an independent lexer that follows MySQL's rules for strings, names and numbers."
RULE = "the parser accepted the statement with the generated literal or name in it"
ASSUMPTIONS = ["names written without quotes start with a letter or an underscore (2a is a documented product of this grammar)",
               "decimal numbers have at most 15 significant digits and fit a double",
               "a quoted name that is exactly * is listed as a known finding"]

# ------------------------------------------------------------------ an independent lexer for the formatted text
SPACE = re.compile(r"\s+")
NUM = re.compile(r"(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")
WORD = re.compile(r"[^\W\d][\w$]*")
OPS = re.compile(r"<=>|<>|!=|<=|>=|\|\||[-+*/%&|^~=<>().,;]")
ESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "0": "\0", "Z": "\x1a", "%": "\\%", "_": "\\_"}


def lex(sql, ansi):
    i, out = 0, []
    while i < len(sql):
        ch = sql[i]
        m = SPACE.match(sql, i)
        if m and ch != "\0":
            i = m.end()
            continue
        if ch == "'" or (ch == '"' and not ansi):
            i += 1
            val = ""
            while True:
                if i >= len(sql):
                    return out + [("unterminated", val)]
                c = sql[i]
                if c == "\\":
                    if i + 1 >= len(sql):
                        return out + [("unterminated", val)]
                    val += ESC.get(sql[i + 1], sql[i + 1])
                    i += 2
                elif c == ch:
                    if sql[i + 1:i + 2] == ch:
                        val += ch
                        i += 2
                    else:
                        i += 1
                        break
                else:
                    val += c
                    i += 1
            out.append(("string", val))
            continue
        if ch == "`" or (ch == '"' and ansi):
            j = i + 1
            val = ""
            while True:
                k = sql.find(ch, j)
                if k < 0:
                    return out + [("unterminated", val)]
                val += sql[j:k]
                if sql[k + 1:k + 2] == ch:
                    val += ch
                    j = k + 2
                else:
                    i = k + 1
                    break
            out.append(("name", val, True))
            continue
        m = NUM.match(sql, i)
        if m:
            out.append(("number", float(m.group()) if set("eE.") & set(m.group()) else int(m.group())))
            i = m.end()
            continue
        m = WORD.match(sql, i)
        if m:
            out.append(("name", m.group(), False))
            i = m.end()
            continue
        m = OPS.match(sql, i)
        if not m:
            return out + [("odd", sql[i:])]
        out.append(("op", m.group()))
        i = m.end()
    return out


# ------------------------------------------------------------------ templates
TEXTS = ["select {0} from t", "select a from t where s = {0} and b = 5 or c like {1}", "select a from t where s in ({0}, {1})",
         "select a from t where s between {0} and {1} or b = 3", "insert into t (a, s) values (1, {0}), (2, {1})",
         "insert into t values ({0}, {1}, 5)", "update t set s = {0}, a = 3 where s <> {1}", "delete from t where s={0}",
         "select concat({0}, a, {1}) as x from t", "select case when s = {0} then {1} else a end from t",
         "select s from t group by s having max(s) > {0} order by s limit 3",
         "select * from (select a from t where s = {0}) x where a like {1}",
         "select a from t where s not like {0} union select {1}", "select a from t where s = {0} /* c */ and b = 2 -- x\n",
         "select a from t where s={0}and b={1}", "select a from t where {0}<>s or({1}=s)",
         "select {0} as x, {1} y from t", "select a from t where s not in ({0})", "select sum(a) from t where s >= {0}"]
CREATE = ["create table t (a varchar(20) default {0}, b int not null)"]
NAMES = ["select {0} from t", "select {0}.{1} from {0}", "select a as {0}, b {1} from t", "select a from t as {0}",
         "insert into {0} ({1}) values (1)", "insert into {0} values (1)", "update {0} set {1} = 1 where {1} > 2",
         "delete from {0} where {1} = 'x'", "select a from t join {0} on {0}.{1} = t.a",
         "select a from t order by {0} desc", "select count(*) from t group by {0}, {1}", "select count(distinct {0}) from t",
         "select a from {0} x left join {1} y on x.a = y.a", "select {0}.* from {0}", "select max({0}) m from t where {1} is null",
         "select a from t where {0} in (1, 2) and {1} like 'x%'", "select a from (select {0} from t) {1}",
         "drop table {0}", "select {0}+{1}, {0} = 1 from t"]
NUMBERS = ["select {0} from t", "select a from t where b = {0} and c < {1}", "select a from t where b in ({0}, {1})",
           "insert into t (a, b) values ({0}, {1})", "update t set a = {0} where b > {1}", "select a + {0} from t",
           "select a - {0} from t", "select a*{0} from t", "select a from t where b between {0} and {1}",
           "select a from t where b={0}", "select a from t where b<{0} or c>{1}", "select f({0},{1}) from t",
           "select case a when {0} then {1} end from t"]


def parser(dialect):
    import sql_parsing as P
    return (P.parse, {}) if dialect == "ansi" else (P.parse_mysql, {"ansi_quotes": False})


def subst(tree, table):
    if isinstance(tree, dict):
        return {subst(k, table): subst(v, table) for k, v in tree.items()}
    if isinstance(tree, list):
        return [subst(v, table) for v in tree]
    if isinstance(tree, bool) or tree is None:
        return tree
    if isinstance(tree, str):
        if tree in table:
            return table[tree]
        if table.get("names"):
            parts = tree.split(".")
            return ".".join(table.get(p, p) for p in parts)
        return tree
    return table.get(tree, tree)


def check(case, note, marks, values, treevalues, name=False):
    from collections import Counter
    import sql_parsing as P
    parse, kw = parser(case["dialect"])
    model = parse(case["template"].format(*marks["text"]))
    sql = case["template"].format(*case["spelled"])
    try:
        tree = parse(sql)
    except Exception as e:
        if case.get("may_refuse"):
            note.excluded("refused by the parser")
            return
        raise Violation("%r is refused: %s" % (sql, short(str(e), 200)))
    table = dict(zip(marks["tree"], treevalues))
    if name:
        table["names"] = True
    want = subst(model, table)
    # the tree of an INSERT has one of two forms, depending on whether a value is 0 or empty
    if typed(tree) != typed(want) and not sql.startswith("insert"):
        raise Violation("%r\nis parsed as %r\ninstead of %r" % (sql, tree, want))
    note.nontrivial()
    note.label(case["dialect"], *case.get("labels", []))
    if case["template"].startswith("create"):
        return
    text = P.format(tree, **kw)
    try:
        again = parse(text)
    except Exception as e:
        raise Violation("%r\nis formatted as %r\nwhich is refused: %s" % (sql, text, short(str(e), 200)))
    if typed(again) != typed(tree):
        raise Violation("%r\nis formatted as %r\nwhich is parsed as %r\ninstead of %r" % (sql, text, again, tree))
    ansi = case["dialect"] == "ansi"
    got = sign([keyword(t) for t in lex(text, ansi)])
    exp = []
    lookup = dict(zip(marks["tree"], values))
    for t in lex(P.format(model, **kw), ansi):
        if t[1] in lookup and t[0] in ("string", "name", "number"):
            exp.append((t[0], lookup[t[1]]))
        else:
            exp.append(keyword(t))
    exp = sign(exp)
    same = Counter(map(repr, got)) == Counter(map(repr, exp)) if sql.startswith("insert") else got == exp
    if not same:
        raise Violation("%r\nis formatted as %r\ntokens %s\ninstead of %s" % (sql, text, short(repr(got), 400),
                                                                              short(repr(exp), 400)))


def keyword(t):
    """a reserved word without quotes is no name"""
    return ("keyword", t[1]) if t[0] == "name" and not t[2] and t[1].lower() in RESERVED else t[:2]


def typed(x):
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, list):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


def sign(ts):
    """negative numbers: the minus sign and the number as one token"""
    out = []
    for t in ts:
        if t[0] == "number" and out and out[-1] == ("op", "-") and (len(out) < 2 or out[-2][0] == "op" and
                                                                    out[-2][1] != ")" or out[-2][1] in WORDS):
            out.pop()
            t = ("number", -t[1])
        out.append(t)
    return out


WORDS = {"SELECT", "THEN", "WHEN", "BETWEEN", "AND", "OR", "IN"}
RESERVED = {"select", "from", "where", "group", "order", "by", "and", "or", "not", "in", "is", "null", "like", "between",
            "case", "when", "then", "else", "end", "join", "on", "left", "right", "inner", "union", "limit", "having",
            "as", "distinct", "true", "false", "all", "create", "desc", "asc", "with", "using", "outer"}


# ------------------------------------------------------------------ strings
PIECES = ["a", "b", "'", '"', "\\", "%", "_", "\\%", "--", "/*", "*/", ";", "\n", "\0", "\x1a", "\t", "\r", "\b", "#",
          "`", "é", "中", "😀", " ", "''", '""', "select", "(", ")", "0", "n", "N", "Z", "x", "\\'", "''--", "$", "{", ".", ","]
BACK = {v: k for k, v in ESC.items() if k not in "%_"}


@st.composite
def string_cases(draw):
    dialect = draw(st.sampled_from(["ansi", "mysql"]))
    template = draw(st.sampled_from(TEXTS + CREATE))
    values, spelled, labels = [], [], set()
    for _ in range(2):
        val = "".join(draw(st.lists(st.one_of(st.sampled_from(PIECES), st.characters(codec="utf-8")), max_size=6)))
        quote = draw(st.sampled_from("'\"")) if dialect == "mysql" else "'"
        body = ""
        i = 0
        while i < len(val):
            c = val[i]
            nxt = val[i + 1:i + 2]
            i += 1
            way = draw(st.integers(0, 2))
            if c == quote:
                body += quote * 2 if way else "\\" + quote
                labels.add("quote")
            elif c == "\\":
                if nxt and nxt in "%_" and way == 0:
                    body += "\\" + nxt
                    i += 1
                else:
                    body += "\\\\"
                labels.add("backslash")
            elif c in BACK and way == 0:
                body += "\\" + BACK[c]
                labels.add("escape")
            elif way == 0 and c not in ESC and c not in "\n":
                body += "\\" + c
                labels.add("needless")
            else:
                body += c
        values.append(val)
        spelled.append(quote + body + quote)
    return {"dialect": dialect, "template": template, "values": values, "spelled": spelled, "labels": sorted(labels)}


def run_strings(case, note):
    check(case, note, {"text": ["'markone'", "'marktwo'"], "tree": ["markone", "marktwo"]}, case["values"], case["values"])


# ------------------------------------------------------------------ names
@st.composite
def name_cases(draw):
    dialect = draw(st.sampled_from(["ansi", "mysql"]))
    template = draw(st.sampled_from(NAMES))
    values, spelled = [], []
    labels = set()
    for _ in range(2):
        k = draw(st.sampled_from(["plain", "plain", "quoted", "odd", "reserved"]))
        if k == "plain":
            val = draw(st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,8}", fullmatch=True))
            if not val.strip("_") or val.lower() in WORDLIKE:
                val = "n_" + val
            text = val
        else:
            if k == "reserved":
                val = draw(st.sampled_from(sorted(RESERVED)))
                val = draw(st.sampled_from([val, val.upper(), val.title()]))
            elif k == "odd":
                val = "".join(draw(st.lists(st.sampled_from(["a", "b", " ", ".", "`", '"', "'", "-", "--", "/*", ";", "\\",
                                                             "é", "中", "1", "$", "@", "(", ")", "*", "#", "[", "]", "%", ",",
                                                             "..", "\n", "select ", "😀"]), min_size=1, max_size=6)))
            else:
                val = draw(st.from_regex(r"[A-Za-z0-9_ ]{1,8}", fullmatch=True))
            if val == "*":
                val = "*a"
            q = draw(st.sampled_from("`\"")) if dialect == "ansi" else "`"
            text = q + val.replace(q, q + q) + q
        labels.add(k)
        values.append(val)
        spelled.append(text)
    if values[0] == values[1]:
        values[1] += "x"
        spelled[1] = spelled[1][:-1] + "x" + spelled[1][-1] if spelled[1][0] in "`\"" else spelled[1] + "x"
    return {"dialect": dialect, "template": template, "values": values, "spelled": spelled, "labels": sorted(labels)}


# words the grammar gives a meaning of their own in some place, so that they are only tried in quotes
WORDLIKE = RESERVED | {"date", "time", "timestamp", "interval", "cast", "trim", "extract", "struct", "array", "map", "cross",
                       "full", "natural", "offset", "fetch", "over", "values", "set", "rows", "top", "lateral", "window",
                       "collate", "similar", "rlike", "regexp", "div", "mod", "xor", "minus", "intersect", "except", "try_cast",
                       "primary", "constraint", "nocase", "to", "at", "current", "for", "unnest", "tablesample", "update",
                       "delete", "insert", "into", "table", "drop", "view", "index", "using", "within", "partition", "union",
                       "both", "leading", "trailing", "stack", "exists", "binary", "convert", "add", "alter", "column", "key"}


def run_names(case, note):
    check(case, note, {"text": ["markone", "marktwo"], "tree": ["markone", "marktwo"]}, case["values"],
          [v.replace(".", "\\.") for v in case["values"]], name=True)


# ------------------------------------------------------------------ numbers
@st.composite
def number_cases(draw):
    values, spelled = [], []
    labels = set()
    for _ in range(2):
        k = draw(st.sampled_from(["int", "int", "big", "decimal", "decimal", "exp"]))
        if k == "int":
            text = str(draw(st.integers(0, 10 ** draw(st.integers(0, 18)))))
        elif k == "big":
            text = str(draw(st.integers(0, 10 ** 40)))
        elif k == "decimal":
            a = str(draw(st.integers(0, 10 ** draw(st.integers(0, 9)))))
            b = draw(st.from_regex(r"[0-9]{0,6}", fullmatch=True))
            text = draw(st.sampled_from([a + "." + b] + (["." + b] if b else [])))
        else:
            text = "%d.%d%s%s" % (draw(st.integers(0, 99)), draw(st.integers(0, 999)), draw(st.sampled_from("eE")),
                                  draw(st.sampled_from(["1", "+2", "-3", "10", "-12", "20", "0"])))
        if draw(st.integers(0, 4)) == 0:
            text = draw(st.sampled_from(["00", "0"])) + text
        labels.add(k)
        value = float(text) if set("eE.") & set(text) else int(text)
        values.append(value)
        spelled.append(text)
    template = draw(st.sampled_from(NUMBERS))
    neg = draw(st.sampled_from(["", "", "-", "+"]))
    if neg and "- {0}" not in template and "+ {0}" not in template and "*{0}" not in template:
        spelled[0] = neg + spelled[0]
        if neg == "-":
            values[0] = -values[0]
    return {"dialect": draw(st.sampled_from(["ansi", "mysql"])), "template": template, "values": values,
            "spelled": spelled, "labels": sorted(labels)}


def run_numbers(case, note):
    check(case, note, {"text": ["77777", "88888"], "tree": [77777, 88888]}, case["values"], case["values"])


# ------------------------------------------------------------------ white space around operators
@st.composite
def spacing_cases(draw):
    n = draw(st.integers(1, 4))
    toks = []
    for i in range(n + 1):
        if i:
            toks.append(draw(st.sampled_from(["+", "-", "*", "/", "%", "=", "<", ">", "<=", ">=", "<>", "!=", "and", "or"])))
        if draw(st.integers(0, 5)) == 0:
            toks.append("-")
        toks.append(draw(st.sampled_from(["a", "b", "t.a", "1", "2", "15", "1.5", ".5", "'x'", "`b c`", "(", "f("])))
        if toks[-1] in ("(", "f("):
            if draw(st.booleans()):
                toks.append("-")
            toks += [draw(st.sampled_from(["a", "1", "2.5"])), ")"]
    gaps = [draw(st.sampled_from(["", "", " ", "\n", "/**/", " /* - */ "])) for _ in toks]
    return {"dialect": draw(st.sampled_from(["ansi", "mysql"])), "toks": toks, "gaps": gaps,
            "where": draw(st.booleans())}


def run_spacing(case, note):
    import sql_parsing as P
    parse, kw = parser(case["dialect"])
    head = "select a from t where " if case["where"] else "select "
    spaced = head + " ".join(case["toks"])
    compact = head
    prev = " "
    for t, gap in zip(case["toks"], case["gaps"]):
        if not gap and joins(prev, t):
            gap = " "
        compact += gap + t
        prev = t
    try:
        want = parse(spaced)
    except Exception:
        note.excluded("refused by the parser")
        return
    try:
        got = parse(compact)
    except Exception as e:
        if "Ambiguity" in str(e):
            note.excluded("a-b is refused as ambiguous")
            return
        raise Violation("%r is parsed, %r is refused: %s" % (spaced, compact, short(str(e), 200)))
    if got != want:
        raise Violation("%r is parsed as %r, but %r as %r" % (spaced, want, compact, got))
    if compact != spaced:
        note.nontrivial()


def joins(a, b):
    """would the tokens a and b be read as something else without a space?"""
    x, y = a[-1], b[0]
    if x.isalpha() and y == "-":        # a-b is refused as ambiguous
        return True
    if (x.isalnum() or x in "._") and (y.isalnum() or y in "._"):
        return True
    return x + y in ("--", "/*", "*/", "<=", ">=", "<>", "!=", "''", "``", "||", "==", "=-") or (x == "'" or y == "'") and x == y \
        or x.isalpha() and y == "("


SUBS = [Sub("strings", string_cases, run_strings, quick=1600, thorough=60000, shards=(8, 16)),
        Sub("names", name_cases, run_names, quick=1600, thorough=60000, shards=(8, 16)),
        Sub("numbers", number_cases, run_numbers, quick=1000, thorough=40000, shards=(8, 16)),
        Sub("spacing", spacing_cases, run_spacing, quick=1000, thorough=40000, shards=(8, 16))]
