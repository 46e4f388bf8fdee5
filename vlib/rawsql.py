"""Generated SQL as lists of [kind, text] pieces, for the non-validating tokenizer."""
from hypothesis import strategies as st

KEYWORDS = ["select", "from", "where", "and", "or", "between", "having", "limit", "union", "union all", "group by",
            "order by", "left join", "inner join", "join", "on", "set", "update", "delete", "insert", "into", "values",
            "distinct", "exists", "desc", "asc", "not null", "is", "null", "case", "when", "then", "else", "end", "as",
            "cross join", "natural join", "left outer join", "create", "table", "drop", "alter", "except", "using", "with"]
NAMES = ["a", "b1", "col", "Tab", "x_y", "_z", "naïve", "列", "selecting", "fromage", "Orders2", "endless", "casex"]
MULTI = [w for w in KEYWORDS if " " in w]


def recase(draw, word):
    how = draw(st.integers(0, 3))
    if how == 0:
        return word.upper()
    if how == 1:
        return "".join(draw(st.sampled_from([c.lower(), c.upper()])) for c in word)
    return word


def spread(draw, word):
    """the blanks of a keyword of several words, written in another way"""
    return "".join(draw(st.sampled_from([" ", " ", "  ", "\t", "\n", "\r\n"])) if c == " " else c for c in word)


CHARS = st.sampled_from(list("ab'\"`;\\-/*#%(),.=: \n\tB1é语$[]@_ ") + ["--", "/*", "*/", "\\'", "''", "\\\\", "\r\n", "  \n", "%s", "BEGIN", "END",
                                                                        "select"])
BODY = st.lists(CHARS, max_size=6).map("".join)


@st.composite
def string(draw):
    body = draw(BODY)
    out, i = "", 0
    while i < len(body):
        c = body[i]
        if c == "\\" and i + 1 < len(body) and body[i + 1] in "'\\":
            out += body[i:i + 2]
            i += 2
            continue
        if c == "'":
            out += "''"
        elif c == "\\" and i + 1 == len(body):
            out += "\\\\"                       # a backslash before the closing quote would quote it
        else:
            out += c
        i += 1
    # runs of backslashes are read in pairs
    return "'" + out + "'"


@st.composite
def symbol(draw):
    return '"' + draw(BODY).replace("\\", "").replace('"', '""') + '"'


@st.composite
def backtick(draw):
    return "`" + draw(BODY).replace("`", "``") + "`"


@st.composite
def comment(draw):
    body = draw(BODY)
    if draw(st.booleans()):
        return ["mcomment", "/*" + body.replace("*/", "") .replace("+", "").rstrip("*") .replace("*/", "") + " */"]
    body = body.replace("\n", " ").replace("\r", " ")
    return ["scomment", draw(st.sampled_from(["-- ", "--", "# c"])) + body + draw(st.sampled_from(["\n", "\n", "\r\n"]))]


NUMBERS = [("int", ["0", "1", "42", "007", "123456789012345678901"]),
           ("float", ["1.5", "0.25", ".5", "1e5", "2.5E-3", "1E10"]),
           ("hex", ["0x1F", "0xab", "0X0"])]


@st.composite
def space(draw, need=False, comments=True):
    """whitespace and comments between two tokens, as pieces"""
    out = []
    n = draw(st.integers(1 if need else 0, 2))
    for _ in range(n):
        k = draw(st.integers(0, 11))
        if comments and k == 11:
            out.append(draw(comment()))
        else:
            out.append(["ws", draw(st.sampled_from([" ", " ", " ", "\n", "\t", "  ", "\r\n"]))])
    if need and not out:
        out.append(["ws", " "])
    return out


# ---- statements as units, without whitespace

class G:
    """one statement: a list of [kind, text] units"""

    def __init__(self, draw, depth=2, simple=False):
        self.draw, self.depth, self.out, self.simple = draw, depth, [], simple

    def pick(self, *options):
        return self.draw(st.sampled_from(options))

    def chance(self, n):
        return self.draw(st.integers(0, n)) == n

    def kw(self, *words):
        for w in words:
            self.out.append(["kw", spread(self.draw, recase(self.draw, w))])

    def op(self, text):
        self.out.append(["op", text])

    def p(self, text):
        self.out.append(["punct", text])

    def name(self):
        k = self.draw(st.integers(0, 9))
        if k == 9:
            self.out.append(["name", self.draw(backtick())])
        elif k == 8:
            self.out.append(["sym", self.draw(symbol())])
        else:
            self.out.append(["name", self.pick(*NAMES)])

    def column(self):
        if self.chance(3):
            self.name()
            self.out.append(["dot", "."])
        self.name()

    def literal(self):
        k = self.draw(st.integers(0, 7))
        if k < 3:
            self.out.append(["str", self.draw(string())])
        elif k < 6:
            kind, texts = self.pick(*NUMBERS)
            self.out.append([kind, self.pick(*texts)])
        elif k == 6:
            self.out.append(["place", self.pick("?", "%s", ":name", "%(x)s", "$1")])
        else:
            self.kw("null")

    def listed(self, f, lo=1, hi=3):
        for i in range(self.draw(st.integers(lo, hi))):
            if i:
                self.p(",")
            f()

    def expr(self):
        self.depth -= 1
        k = self.draw(st.integers(0, 11)) if self.depth >= 0 else self.draw(st.integers(0, 5))
        if k < 3:
            self.column()
        elif k < 6:
            self.literal()
        elif k < 8:
            self.expr()
            self.op(self.pick("+", "-", "/", "*", "%", "||", "^", "&"))
            self.expr()
        elif k == 8:
            self.out.append(["func", self.pick("count", "SUM", "coalesce", "f", "left", "values", "if", "date")])
            self.p("(")
            self.listed(self.expr, 1, 3)
            self.p(")")
        elif k == 9:
            self.kw("case")
            for _ in range(self.draw(st.integers(1, 2))):
                self.kw("when")
                self.cond()
                self.kw("then")
                self.expr()
            if self.chance(1):
                self.kw("else")
                self.expr()
            self.kw("end")
        elif k == 10:
            self.p("(")
            self.expr()
            self.p(")")
        else:
            self.p("(")
            self.select()
            self.p(")")
        self.depth += 1

    def cond(self):
        k = self.draw(st.integers(0, 9))
        if k < 5 or self.depth < 0:
            self.expr()
            self.op(self.pick("=", "<", ">=", "<>", "!=", ">"))
            self.expr()
        elif k == 5:
            self.column()
            self.kw("between")
            self.literal()
            self.kw("and")
            self.literal()
        elif k == 6:
            self.column()
            self.kw(self.pick("in", "not in"))
            self.p("(")
            self.listed(self.literal)
            self.p(")")
        elif k == 7:
            self.column()
            self.kw(self.pick("like", "not like"))
            self.out.append(["str", self.draw(string())])
        elif k == 8:
            self.column()
            self.kw("is")
            self.kw(self.pick("null", "not null"))
        else:
            self.p("(")
            self.cond()
            self.p(")")

    def where(self):
        self.kw("where")
        self.cond()
        for _ in range(self.draw(st.integers(0, 2))):
            self.kw(self.pick("and", "or"))
            self.cond()

    def table(self):
        self.depth -= 1
        if self.depth >= 0 and self.chance(5):
            self.p("(")
            self.select()
            self.p(")")
        else:
            self.column()
        if self.chance(2):
            if self.chance(1):
                self.kw("as")
            self.name()
        self.depth += 1

    def select(self):
        self.depth -= 1
        self.kw("select")
        if self.chance(6):
            self.kw("distinct")
        if self.chance(5):
            self.op("*")
        else:
            self.listed(self.field)
        if not self.chance(5):
            self.kw("from")
            self.listed(self.table, 1, 2)
            while self.chance(3):
                self.kw(self.pick("join", "left join", "inner join", "left outer join", "cross join"))
                self.table()
                self.kw("on")
                self.cond()
            if self.chance(1):
                self.where()
            if self.chance(4):
                self.kw("group by")
                self.listed(self.column)
                if self.chance(1):
                    self.kw("having")
                    self.cond()
            if self.chance(3):
                self.kw("order by")
                self.listed(self.ordered)
            if self.chance(3):
                self.kw("limit")
                self.out.append(["int", self.pick("0", "10")])
        if self.depth >= 0 and self.chance(6):
            self.kw(self.pick("union", "union all"))
            self.select()
        self.depth += 1

    def field(self):
        self.expr()
        if self.chance(2):
            if self.chance(1):
                self.kw("as")
            self.name()

    def ordered(self):
        self.column()
        if self.chance(1):
            self.kw(self.pick("asc", "desc"))

    def insert(self):
        self.kw("insert", "into")
        self.column()
        if self.chance(1):
            self.p("(")
            self.listed(self.name)
            self.p(")")
        self.kw("values")
        self.listed(self.row, 1, 3)

    def row(self):
        self.p("(")
        self.listed(self.expr)
        self.p(")")

    def assignment(self):
        self.column()
        self.op("=")
        self.expr()

    def update(self):
        self.kw("update")
        self.column()
        self.kw("set")
        self.listed(self.assignment)
        if self.chance(1):
            self.where()

    def delete(self):
        self.kw("delete", "from")
        self.column()
        if self.chance(1):
            self.where()

    def create(self):
        self.kw("create", "table")
        self.column()
        self.p("(")
        self.listed(self.coldef)
        self.p(")")

    def coldef(self):
        self.name()
        t = self.pick("int", "varchar", "text", "float")
        self.out.append(["type", recase(self.draw, t)])
        if t == "varchar":
            self.p("(")
            self.out.append(["int", "20"])
            self.p(")")
        if self.chance(2):
            self.kw("not null")

    def drop(self):
        self.kw("drop", "table")
        self.column()

    def statement(self):
        k = self.draw(st.integers(0, 9))
        (self.select if k < 5 else self.insert if k == 5 else self.update if k == 6 else
         self.delete if k == 7 else self.create if k == 8 else self.drop)()
        return self.out


    def routine(self):
        """CREATE ... BEGIN statements END: semicolons inside do not end it"""
        self.kw(self.pick("create", "create or replace"))
        self.out.append(["kw", self.pick("procedure", "TRIGGER", "function")])
        self.name()
        self.out.append(["kw", recase(self.draw, "begin")])
        for _ in range(self.draw(st.integers(1, 2))):
            self.depth = 0
            (self.insert if self.chance(1) else self.delete)()
            self.p(";")
        self.out.append(["kw", recase(self.draw, "end")])
        return self.out


def joined(draw, units, comments=True):
    """the units with whitespace and comments between them"""
    out = []
    last = None
    for kind, text in units:
        if last is not None:
            tight = kind in ("punct", "dot") or last[0] in ("punct", "dot")
            if last[1] in "-%":                 # -1, --, %s are one token
                sp = [["ws", " "]] + draw(space(False, comments))
            elif kind == "dot" or last[0] == "dot" or (kind == "punct" and text == "(" and last[0] == "func"):
                sp = []
            elif tight and not (kind == "punct" and last[0] == "punct" and draw(st.booleans())):
                sp = draw(space(False, comments))
            elif "op" in (kind, last[0]) and draw(st.booleans()) and text != "%s" and (last[1], text) != ("-", "-") \
                    and not (kind == "place" or last[0] == "place") and kind != "op" or kind == "op" and last[0] in ("name", "str") and draw(st.booleans()):
                sp = draw(space(False, comments))
            else:
                sp = draw(space(True, comments))
            if sp and sp[0][0] in ("mcomment", "scomment") and last[0] not in ("op", "punct", "str", "name", "int", "kw"):
                sp.insert(0, ["ws", " "])
            if sp and sp[0][0] == "scomment" and sp[0][1][0] == "#":     # directly behind a name it is part of the name
                sp.insert(0, ["ws", " "])
            out += sp
        out.append([kind, text])
        last = [kind, text]
    return out


@st.composite
def script(draw, lo=1, hi=3, comments=True, depth=2, routines=True):
    """{"stmts": [[pieces], ...]}: the pieces of each statement end with its semicolon, the last one's is optional"""
    stmts = []
    n = draw(st.integers(lo, hi))
    for i in range(n):
        g = G(draw, depth)
        if routines and draw(st.integers(0, 7)) == 7:
            units = g.routine()
        else:
            units = g.statement()
        if i + 1 < n or draw(st.booleans()):
            units = units + [["punct", ";"]]
        stmts.append(joined(draw, units, comments))
    between = [draw(space(False, comments)) for _ in range(n + 1)]
    for b in between:
        if b and b[0][1][0] == "#":
            b.insert(0, ["ws", " "])
    return {"stmts": stmts, "between": between}


def text_of(pieces):
    return "".join(t for _, t in pieces)


@st.composite
def soup(draw):
    """any text, more or less like SQL"""
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.text(max_size=30))
    if k == 1:
        return draw(st.text(alphabet=list("'\"`\\;()-/*#$%s:@[]{}<>=! \n\tabAEe019._?´ß") + ["\r"], max_size=30))
    words = KEYWORDS + NAMES + ["(", ")", ";", ",", ".", "::", ":=", "'", "\"", "`", "--", "/*", "*/", "'x'", "\"y\"", "`z`", "\n", " ", "  ",
                                "1", "1.5", "-", "+", "[", "]", "[1]", "$$", "$a$", "begin", "end if", "if", "for", "declare", "end loop",
                                "loop", "while", "foreach", "E'x'", "date '2020-01-01'", "interval", "timestamp", "at time zone 'x'",
                                "\\d", "%s", "?", "handler for", "double precision", "over", "partition by", "\r\n", "\\", "''", "*",
                                "=", "<", ">", "<=", "like", "in", "not", "values", "row", "day", "-- c\n", "/* c */", "/*+ h */", "# h\n", "--"]
    parts = draw(st.lists(st.sampled_from(words), max_size=25 if k == 2 else 12))
    sep = draw(st.sampled_from(["", " ", " "]))
    return sep.join(parts)
