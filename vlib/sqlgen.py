"""Generator of SQL statements over a fixed little database, used by the parser and formatter checks.

Statements are drawn as text; every operator that SQLite, MySQL and the parser under test could group differently is
parenthesised, so that the text has one meaning.  Profiles:
    sqlite-ansi   common parser, double-quoted names, runs on SQLite
    sqlite-mysql  MySQL parser, back-quoted names, runs on SQLite (|| and double-quoted strings left out)
    mysql         MySQL parser, not executed: also ||, <=>, double-quoted strings, INTERVAL, # comments
"""
from hypothesis import strategies as st

TABLES = {"t": ["a", "b", "c", "s", "order"], "u": ["a", "d", "s", "x y"], "v": ["b", "e", "f1"]}
NUMERIC = {"a", "b", "c", "d", "e", "x y"}
TEXTUAL = {"s", "order", "f1"}

DDL = ['CREATE TABLE t (a INTEGER, b INTEGER, c REAL, s TEXT, "order" TEXT)',
       'CREATE TABLE u (a INTEGER, d INTEGER, s TEXT, "x y" INTEGER)',
       'CREATE TABLE v (b INTEGER, e INTEGER, f1 TEXT)']
ROWS = {
    "t": [(1, 2, 0.5, "x", "abc"), (2, None, 1.5, "Y", ""), (None, 3, -2.0, None, "it's"), (3, -1, None, "abc", None),
          (-4, 0, 2.0, "a%b", "x"), (2, 2, 0.0, "x", "b"), (7, 5, 3.25, "", "a_c")],
    "u": [(1, 10, "x", 3), (2, None, None, 0), (None, 5, "abc", None), (2, -3, "Y", 2), (9, 4, "z", 7)],
    "v": [(2, 1, "x"), (None, 2, None), (3, 3, "abc"), (0, None, "q")],
}


def fill(con):
    for d in DDL:
        con.execute(d)
    for t, rows in ROWS.items():
        for r in rows:
            con.execute("INSERT INTO %s VALUES (%s)" % (t, ",".join("?" * len(r))), r)


WORDS = ["x", "abc", "Y", "", "it's", "a%b", "%", "a_c", "select", "--", "/* no */", "a;b", '"', "`", "(", "1", "NULL",
         "é中", " ", "x y", "''", "#"]
LIKES = ["%", "a%", "%c", "_", "%b%", "x", "a_c", "", "%'%"]
# binding strength, smaller is tighter; the grammar of the parser, SQLite and MySQL agree on these
ATOM, UNARY, MUL, ADD, BITAND, BITOR, PRED, NOT, AND, OR = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9


class Gen:
    def __init__(self, draw, profile):
        self.draw, self.profile = draw, profile
        self.ansi = profile == "sqlite-ansi"
        self.exec = profile.startswith("sqlite")
        self.used = set()

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def chance(self, n):
        return self.draw(st.integers(0, n - 1)) == 0

    def q(self, name):
        quote = '"' if self.ansi else "`"
        plain = name.replace("_", "").isalnum() and name.isascii() and name != "order" and not name[0].isdigit()
        if plain and not self.chance(12):
            return name
        return quote + name.replace(quote, quote * 2) + quote

    def string(self, words=WORDS):
        w = self.pick(words)
        if not self.exec and self.chance(3):
            return '"' + w.replace('"', '""') + '"'
        return "'" + w.replace("'", "''") + "'"

    def number(self):
        return self.pick(["0", "1", "2", "3", "5", "10", "1.5", "0.25", ".5", "2.0", "1.5e2", "2.5e-1", "1E-2", "100000",
                          "7", "4", "12345678901"])

    # ---------------------------------------------------------------- scalar expressions: (text, level)
    def col(self, scope, kind):
        names = [(t, c) for t, cols in scope for c, k in cols if k == kind]
        if not names:
            return None
        t, c = self.pick(names)
        ambiguous = len([1 for _, cols in scope for cc, _ in cols if cc == c]) > 1
        if t and (ambiguous or self.chance(4)):
            return self.q(t) + "." + self.q(c)
        return self.q(c)

    def paren(self, e, level):
        text, lv = e
        if lv > level or self.chance(15):
            return "(" + text + ")"
        return text

    def num(self, scope, d):
        if d <= 0 or self.chance(3):
            c = self.col(scope, "n") if not self.chance(3) else None
            if c:
                return c, ATOM
            n = self.number()
            return (n, ATOM) if not self.chance(6) else ("-" + n, UNARY)
        k = self.pick(["+", "-", "*", "/", "%", "+", "-", "&", "|", "neg", "~", "fn", "case", "cast", "sub", "coll"])
        if k in ("+", "-"):
            self.used.add("arith")
            return "%s %s %s" % (self.paren(self.num(scope, d - 1), ADD), k,
                                 self.paren(self.num(scope, d - 1), MUL)), ADD
        if k in ("*", "/", "%"):
            self.used.add("arith")
            return "%s %s %s" % (self.paren(self.num(scope, d - 1), MUL), k,
                                 self.paren(self.num(scope, d - 1), UNARY)), MUL
        if k in ("&", "|"):
            if self.exec:       # SQLite reads & and | from left to right, MySQL binds & tighter
                self.bit = k = getattr(self, "bit", k)
            self.used.add("bits")
            return "%s %s %s" % (self.paren(self.num(scope, d - 1), ADD), k,
                                 self.paren(self.num(scope, d - 1), ADD)), BITAND if k == "&" else BITOR
        if k in ("neg", "~"):
            self.used.add("unary")
            inner = self.paren(self.num(scope, d - 1), ATOM)
            if k == "neg" and inner[0] in "+-":
                inner = "(" + inner + ")"
            return ("-" if k == "neg" else "~") + self.pick(["", " "]) + inner, UNARY
        if k == "fn":
            self.used.add("function")
            f = self.pick(["abs", "length", "coalesce", "round", "nullif", "ifnull", "ABS", "Coalesce"])
            if f in ("length",):
                return "%s(%s)" % (f, self.txt(scope, d - 1)[0]), ATOM
            if f in ("abs", "round", "ABS"):
                return "%s(%s)" % (f, self.num(scope, d - 1)[0]), ATOM
            args = [self.num(scope, d - 1)[0] for _ in range(2 if f.lower() != "coalesce" else self.pick([2, 3]))]
            return "%s(%s)" % (f, ", ".join(args)), ATOM
        if k == "case":
            return self.case(scope, d, self.num), ATOM
        if k == "cast":
            self.used.add("cast")
            if self.exec:
                return "CAST(%s AS INTEGER)" % self.num(scope, d - 1)[0], ATOM
            return "CAST(%s AS %s)" % (self.num(scope, d - 1)[0], self.pick(
                ["int", "decimal(10,2)", "char(5)", "char(0)", "decimal(5,0)", "decimal(0)", "char", "double"])), ATOM
        if k == "sub":
            q = self.subquery(scope, d, "n")
            return (q, ATOM) if q else self.num(scope, 0)
        return self.num(scope, d - 1)

    def case(self, scope, d, kind):
        self.used.add("case")
        whens = "".join(" WHEN %s THEN %s" % (self.boolean(scope, d - 1)[0], kind(scope, d - 1)[0])
                        for _ in range(self.pick([1, 1, 2])))
        e = " ELSE " + kind(scope, d - 1)[0] if self.chance(2) else ""
        if self.chance(4):
            self.used.add("simple case")
            side = self.pick([self.num, self.txt])
            whens = "".join(" WHEN %s THEN %s" % (self.paren(side(scope, 0), BITOR), kind(scope, d - 1)[0])
                            for _ in range(self.pick([1, 1, 2])))
            return "CASE %s%s%s END" % (self.paren(side(scope, d - 1), BITOR), whens, e)
        return "CASE%s%s END" % (whens, e)

    def txt(self, scope, d):
        if d <= 0 or self.chance(2):
            c = self.col(scope, "t") if not self.chance(3) else None
            return (c or self.string()), ATOM
        k = self.pick(["fn", "concat", "case", "coalesce", "trim"])
        if k == "fn":
            f = self.pick(["lower", "upper", "substr"])
            if f == "substr":
                return "substr(%s, %s, %s)" % (self.txt(scope, d - 1)[0], self.pick("123"), self.pick("012")), ATOM
            return "%s(%s)" % (f, self.txt(scope, d - 1)[0]), ATOM
        if k == "concat":
            self.used.add("concat")
            parts = [self.paren(self.txt(scope, d - 1), ATOM) for _ in range(self.pick([2, 2, 3]))]
            if self.ansi and self.chance(2):
                if len(parts) == 3 and self.chance(2):
                    return "%s || (%s || %s)" % tuple(parts), MUL - 0.5
                return " || ".join(parts), MUL - 0.5
            return "concat(%s)" % ", ".join(parts), ATOM
        if k == "case":
            return self.case(scope, d, self.txt), ATOM
        if k == "trim" and not self.exec and self.chance(2):
            self.used.add("trim from")
            return "trim(%s%sFROM %s)" % (self.pick(["BOTH ", "LEADING ", "TRAILING "]),
                                          self.pick(["", self.string() + " "]), self.txt(scope, d - 1)[0]), ATOM
        if k == "trim":
            return "trim(%s)" % self.txt(scope, d - 1)[0], ATOM
        return "coalesce(%s, %s)" % (self.txt(scope, d - 1)[0], self.txt(scope, d - 1)[0]), ATOM

    def boolean(self, scope, d):
        if d > 0 and not self.chance(3):
            k = self.pick(["and", "or", "not", "and", "or"])
            if k == "not":
                self.used.add("not")
                return "NOT " + self.paren(self.boolean(scope, d - 1), NOT), NOT
            lv = AND if k == "and" else OR
            # the right operand may be of the same operator without parentheses: AND and OR are associative
            return "%s %s %s" % (self.paren(self.boolean(scope, d - 1), lv), self.kw(k),
                                 self.paren(self.boolean(scope, d - 1), lv)), lv
        k = self.pick(["cmp", "cmp", "cmp", "tcmp", "null", "between", "in", "like", "inq", "exists", "eqnull", "pred",
                       "row", "istrue", "spaceship", "num", "const"])
        n = lambda: self.paren(self.num(scope, d - 1), BITOR)
        t = lambda: self.paren(self.txt(scope, d - 1), BITOR)
        cmp_ = ["=", "<>", "!=", "<", ">", "<=", ">="]
        if k == "cmp":
            return "%s %s %s" % (n(), self.pick(cmp_), n()), PRED
        if k == "tcmp":
            return "%s %s %s" % (t(), self.pick(cmp_), t()), PRED
        if k == "null":
            self.used.add("null")
            if d > 0 and self.chance(4):
                q = self.subquery(scope, d, "n")
                if q:
                    return "%s IS %sNULL" % (q, self.pick(["", "NOT ", "NOT "])), PRED
            return "%s IS %sNULL" % (self.pick([n, t])(), self.pick(["", "NOT "])), PRED
        if k == "between":
            self.used.add("between")
            return "%s %sBETWEEN %s AND %s" % (n(), self.pick(["", "NOT "]), n(), n()), PRED
        if k == "in":
            self.used.add("in")
            if self.chance(2):
                items = [self.pick([self.number, lambda: "NULL", lambda: self.num(scope, 1)[0]])()
                         for _ in range(self.pick([1, 2, 3]))]
                return "%s %sIN (%s)" % (n(), self.pick(["", "NOT "]), ", ".join(items)), PRED
            items = [self.string() for _ in range(self.pick([1, 2, 3]))]
            return "%s %sIN (%s)" % (t(), self.pick(["", "NOT "]), ", ".join(items)), PRED
        if k == "like":
            self.used.add("like")
            return "%s %sLIKE %s" % (t(), self.pick(["", "NOT "]), self.string(LIKES)), PRED
        if k == "inq" and d > 0:
            q = self.subquery(scope, d, "n", many=True)
            if q:
                return "%s %sIN %s" % (n(), self.pick(["", "NOT "]), q), PRED
        if k == "exists" and d > 0:
            self.used.add("exists")
            q = self.subquery(scope, d, "n", many=True)
            if q:
                return "EXISTS " + q, ATOM
        if k == "eqnull":
            self.used.add("eqnull")
            return "%s %s NULL" % (n(), self.pick(["=", "<>"])), PRED
        if k == "pred" and d > 0:
            self.used.add("predpred")
            return "(%s) %s (%s)" % (self.boolean(scope, d - 1)[0], self.pick(["=", "<>"]),
                                     self.boolean(scope, d - 1)[0]), PRED
        if k == "row" and not self.exec:
            return "(%s, %s) = (%s, %s)" % (n(), n(), n(), n()), PRED
        if k == "istrue":
            self.used.add("istrue")
            return "%s IS %s%s" % (n(), self.pick(["", "NOT "]), self.pick(["TRUE", "FALSE"])), PRED
        if k == "spaceship" and not self.exec:
            return "%s <=> %s" % (n(), n()), PRED
        if k == "num":
            return n(), BITOR
        if k == "const":
            self.used.add("constant")
            return self.pick(["0", "1", "TRUE", "FALSE", "false", "NULL", "0.0"]), ATOM
        return "%s = %s" % (n(), n()), PRED

    def kw(self, w):
        return self.pick([w, w.upper(), w.upper(), w.capitalize()])

    # ---------------------------------------------------------------- queries
    def subquery(self, scope, d, kind, many=False):
        self.used.add("subquery")
        t = self.pick(sorted(TABLES))
        inner = [(t, self.cols_of(t))]
        # correlated reference
        sc = inner if self.chance(2) else inner + [(a, c) for a, c in scope if a and a != t]
        where = " WHERE " + self.boolean(sc, min(d - 1, 1))[0] if self.chance(2) else ""
        e = self.num(inner, 1)[0]
        if many:
            more = ""
            if self.chance(5):
                self.used.add("inner union")
                t2 = self.pick(sorted(TABLES))
                more = " UNION%s SELECT %s FROM %s%s" % (self.pick(["", " ALL"]), self.col([(t2, self.cols_of(t2))], "n"),
                                                         t2, self.pick(["", "", " LIMIT 0", " ORDER BY 1 LIMIT 1"]))
            return "(SELECT %s FROM %s%s%s)" % (e, t, where, more)
        return "(SELECT %s(%s) FROM %s%s)" % (self.pick(["max", "min", "count", "sum"]), e, t, where)

    def cols_of(self, t):
        return [(c, "n" if c in NUMERIC else "t") for c in TABLES[t]]

    def source(self, d):
        """FROM clause: (text, scope)"""
        k = self.pick(["table", "table", "table", "alias", "join", "join", "comma", "derived", "join3"])
        if k == "table":
            t = self.pick(sorted(TABLES))
            return t, [(t, self.cols_of(t))]
        if k == "alias":
            t = self.pick(sorted(TABLES))
            al = self.pick(["x1", "zz", "T_1", "my alias"])
            return t + self.pick([" AS ", " "]) + self.q(al), [(al, self.cols_of(t))]
        if k == "derived":
            self.used.add("derived")
            if self.chance(4):
                self.used.add("derived union")
                inner, cols = self.select(0, simple=True, kinds=[self.pick("nt") for _ in range(2)], width=2)
                sel = inner + self.pick([" UNION ", " UNION ALL "]) + self.select(
                    0, simple=True, kinds=[kk for _, kk in cols], width=2)[0]
                sel += self.pick(["", "", " LIMIT 0", " ORDER BY 1, 2 LIMIT 3", " ORDER BY 1 DESC"])
            else:
                sel, cols = self.select(d - 1, simple=True)
            if self.chance(6):
                return "(%s)" % sel, [("", cols)]
            al = self.pick(["x1", "dd"])
            return "(%s) AS %s" % (sel, al), [(al, cols)]
        names = list(self.draw(st.permutations(sorted(TABLES))))[:3 if k == "join3" else 2]
        scope = [(names[0], self.cols_of(names[0]))]
        text = names[0]
        for t in names[1:]:
            mine = (t, self.cols_of(t))
            kind = self.pick([",", "JOIN", "INNER JOIN", "LEFT JOIN", "CROSS JOIN", "LEFT OUTER JOIN", "RIGHT JOIN"]) \
                if k != "comma" else ","
            self.used.add("join")
            both = scope + [mine]
            if kind == ",":
                if "JOIN" in text:
                    kind = "JOIN"
                else:
                    text += ", " + t
                    scope = both
                    continue
            if kind == "CROSS JOIN":
                text += " CROSS JOIN " + t
            else:
                shared = [c for c in TABLES[t] if any(cc == c for _, cols in scope for cc, _ in cols)]
                text += " %s %s ON " % (kind, t)
                c = self.pick([cc for cc in TABLES[t] if cc in NUMERIC])
                o, oc = self.pick([(tt, cc) for tt, cols in scope for cc, kk in cols if kk == "n"])
                cond = "%s.%s = %s.%s" % (self.q(t), self.q(c), self.q(o), self.q(oc))
                if self.chance(4):
                    cond = self.boolean(both, 1)[0]
                elif self.chance(3):
                    cond += " AND " + self.paren(self.boolean(both, 1), NOT)
                text += cond
            scope = both
        return text, scope

    def select(self, d, simple=False, width=None, kinds=None):
        """a query without ORDER BY or LIMIT: (text, [(column name, kind)])"""
        src, scope = self.source(d if not simple else 0)
        where = " WHERE " + self.boolean(scope, d)[0] if self.chance(2) else ""
        grouped = not simple and self.chance(4)
        width = width or self.pick([1, 1, 2, 2, 3])
        if not simple and not kinds and not grouped and self.chance(6):
            return "SELECT * FROM %s%s" % (src, where), []
        items, cols, group = [], [], ""
        if grouped:
            self.used.add("group")
            keys = [self.col(scope, self.pick("nt")) or self.col(scope, "n") or self.col(scope, "t")
                    for _ in range(self.pick([1, 1, 2]))]
            keys = sorted(set(keys))
            for i in range(width):
                if i < len(keys) and not kinds:
                    items.append((keys[i], "t"))
                else:
                    items.append((self.aggregate(scope), "n"))
            group = " GROUP BY " + ", ".join(keys)
            if self.chance(3):
                if self.chance(3):
                    group += " HAVING " + self.pick(["0", "1", "FALSE", "TRUE", "NULL"])
                else:
                    group += " HAVING %s %s %s" % (self.aggregate(scope), self.pick([">", "<", "="]), self.number())
                    if self.chance(3):
                        group += self.pick([" AND ", " OR ", " and not "]) + "count(*) > " + self.pick("0123")
        else:
            for i in range(width):
                kind = kinds[i] if kinds else self.pick("nnt")
                items.append(((self.num if kind == "n" else self.txt)(scope, d)[0], kind))
        out = []
        for i, (e, kind) in enumerate(items):
            if simple or self.chance(3):
                name = "c%d" % (i + 1) if simple else self.pick(["k%d", "my col%d", "n_%d"]) % (i + 1)
                out.append(e + self.pick([" AS ", " AS ", " "]) + self.q(name))
                cols.append((name, kind))
            else:
                out.append(e)
        dist = self.kw("distinct") + " " if self.chance(5) else ""
        return "SELECT %s%s FROM %s%s%s" % (dist, ", ".join(out), src, where, group), cols

    def aggregate(self, scope):
        f = self.pick(["sum", "count", "min", "max", "avg", "COUNT(*)", "count(DISTINCT"])
        if f == "COUNT(*)":
            return f
        e = self.num(scope, 1)[0]
        return "%s %s)" % (f, e) if f.endswith("DISTINCT") else "%s(%s)" % (f, e)

    def query(self, d):
        k = self.pick(["plain", "plain", "plain", "plain", "plain", "union", "with", "window"])
        tail = ""
        if k == "union":
            self.used.add("union")
            w = self.pick([1, 2])
            return self.union(d, [self.pick("nt") for _ in range(w)])
        if k == "with":
            self.used.add("with")
            if self.chance(8):
                self.used.add("recursive")
                return ("WITH RECURSIVE cte (n) AS (SELECT %s UNION ALL SELECT n + 1 FROM cte WHERE n < %s) "
                        "SELECT n, %s FROM cte%s" % (self.pick("012"), self.pick("345"),
                                                     self.num([("cte", [("n", "n")])], 1)[0],
                                                     self.pick(["", " WHERE n > 2", " ORDER BY n DESC"])))
            heads, scope = [], []
            for name in ["cte", "w2"][:self.pick([1, 1, 2])]:
                if self.chance(4):
                    cols = [("%s_p%d" % (name, i), self.pick("nt")) for i in range(self.pick([1, 2]))]
                    inner = self.union(d - 1, [kk for _, kk in cols])
                    head = "%s (%s)" % (name, ", ".join(c for c, _ in cols))
                else:
                    inner, cols = self.select(d - 1, simple=True)
                    cols = cols or [("c1", "n")]
                    head = name
                    if name == "w2" or self.chance(3):
                        cols = [("%s_p%d" % (name, i), kk) for i, (_, kk) in enumerate(cols)]
                        head += " (%s)" % ", ".join(c for c, _ in cols)
                heads.append("%s AS (%s)" % (head, inner))
                scope.append((name, cols))
            body = []
            kind = self.pick("nt")
            for _ in range(self.pick([1, 1, 1, 2])):
                e = (self.num if kind == "n" else self.txt)(scope, 1)[0]
                if self.chance(4):
                    e = "count(*)"
                body.append("SELECT %s FROM %s%s" % (e, ", ".join(n for n, _ in scope),
                                                     " WHERE " + self.boolean(scope, 1)[0] if self.chance(2) else ""))
            text = "WITH %s %s" % (", ".join(heads), self.pick([" UNION ", " UNION ALL "]).join(body))
            if self.chance(4):
                text += self.pick([" ORDER BY 1", " ORDER BY 1 DESC LIMIT 2", " LIMIT 0", " LIMIT 1000"])
            return text
        if k == "window":
            self.used.add("window")
            t = self.pick(sorted(TABLES))
            scope = [(t, self.cols_of(t))]
            f = self.pick(["row_number()", "sum(%s)" % self.num(scope, 1)[0], "count(*)", "rank()",
                           "max(%s)" % self.num(scope, 0)[0]])
            part = ""
            if self.chance(2):
                keys = [self.col(scope, self.pick("nt")) or self.num(scope, 0)[0] for _ in range(self.pick([1, 1, 2]))]
                part = "PARTITION BY %s " % ", ".join(keys)
            names = [self.q(c) for c in TABLES[t]]
            if self.chance(3):
                names = [self.col(scope, "n")]
            order = "ORDER BY " + ", ".join("%s%s" % (c, self.pick(["", " DESC", " ASC"])) for c in names)
            frame = ""
            if f.startswith(("row", "rank")):
                pass
            elif self.chance(2):
                self.used.add("frame")
                edges = ["UNBOUNDED PRECEDING", "CURRENT ROW", "BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW",
                         "BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING",
                         "BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING"]
                steps = ["1 PRECEDING", "BETWEEN 1 PRECEDING AND CURRENT ROW", "BETWEEN 2 PRECEDING AND 1 PRECEDING",
                         "BETWEEN 1 PRECEDING AND 1 FOLLOWING", "BETWEEN CURRENT ROW AND 2 FOLLOWING",
                         "BETWEEN 1 FOLLOWING AND 2 FOLLOWING", "BETWEEN UNBOUNDED PRECEDING AND 1 FOLLOWING",
                         "BETWEEN UNBOUNDED PRECEDING AND 1 PRECEDING", "BETWEEN 1 PRECEDING AND UNBOUNDED FOLLOWING",
                         "BETWEEN 1 FOLLOWING AND UNBOUNDED FOLLOWING"]
                if self.chance(2):
                    self.used.add("range frame")
                    frame = " RANGE " + self.pick(edges + steps if len(names) == 1 else edges)
                else:
                    if self.chance(4):
                        self.used.add("bare frame")
                        order = ""
                    frame = " ROWS " + self.pick(edges + steps)
            elif self.chance(4):
                order = ""
            if self.ansi and f.startswith(("sum", "count", "max")) and self.chance(4):
                self.used.add("filter")
                f += " FILTER (WHERE %s)" % self.boolean(scope, 1)[0]
            w = "%s OVER (%s)" % (f, (part + order + frame).strip())
            k = self.pick(["plain", "plain", "arith", "order", "fn"])
            if k == "arith":
                w = "%s + %s" % (w, self.paren(self.num(scope, 0), MUL))
            elif k == "fn":
                w = "coalesce(%s, %s)" % (w, self.number())
            if k == "order":
                return "SELECT %s FROM %s ORDER BY %s, %s" % (", ".join(map(self.q, TABLES[t])), t, w,
                                                              ", ".join(map(self.q, TABLES[t])))
            return "SELECT %s, %s%s FROM %s" % (self.q(TABLES[t][0]), w, self.pick(["", " AS w"]), t)
        text, cols = self.select(d)
        if self.chance(2):
            self.used.add("orderlimit")
            keys = [self.q(c) for c, _ in cols if c not in ("a", "b", "s")]
            if not keys:
                keys = ["1"]
            tail = " ORDER BY " + ", ".join(k + self.pick(["", " DESC", " ASC", " desc"]) for k in keys)
            if self.chance(2):
                tail += self.pick([" LIMIT 3", " LIMIT 2 OFFSET 1", " LIMIT 1, 2", " limit 0", " LIMIT 2 OFFSET 0", " LIMIT 0, 2"])
        elif self.chance(6):
            tail = self.pick([" LIMIT 0", " LIMIT 1000", " LIMIT 1000 OFFSET 0"])
        return text + tail

    def union(self, d, kinds):
        self.used.add("union")
        text = self.select(d - 1, width=len(kinds), kinds=kinds)[0]
        for _ in range(self.pick([1, 1, 2])):
            op = self.pick(["UNION", "UNION ALL", "EXCEPT", "INTERSECT", "UNION"] if self.exec else
                           ["UNION", "UNION ALL"])
            text += " %s %s" % (op, self.select(d - 1, width=len(kinds), kinds=kinds)[0])
        if self.chance(2):
            text += " ORDER BY " + ", ".join(str(i + 1) + self.pick(["", "", " DESC"]) for i in range(len(kinds)))
            text += self.pick([" LIMIT 2", " LIMIT 3 OFFSET 1", "", "", " LIMIT 0", " LIMIT 2 OFFSET 0"])
        elif self.chance(3):                    # without an order only limits that leave all or nothing are one answer
            text += self.pick([" LIMIT 0", " LIMIT 1000", " LIMIT 1000 OFFSET 0", " LIMIT 0 OFFSET 0"])
        elif not self.exec and self.chance(4):
            self.used.add("fetch")
            text += " FETCH FIRST %s ROWS ONLY" % self.pick(["2", "0", "10"])
        return text

    def statement(self, d=2):
        k = self.pick(["query"] * 6 + ["insert", "insertq", "update", "update", "delete", "insertv"])
        self.used.add(k)
        t = self.pick(sorted(TABLES))
        cols = self.cols_of(t)
        scope = [(t, cols)]
        if k == "query":
            return self.query(d)
        if k in ("insert", "insertq", "insertv"):
            some = list(self.draw(st.permutations(cols)))[:self.pick([1, 2, len(cols)])]
            if k == "insertv":
                some = cols
            names = " (%s)" % ", ".join(self.q(c) for c, _ in some) if k != "insertv" else ""
            if k == "insertq":
                kinds = [x for _, x in some]
                return "INSERT INTO %s%s %s" % (t, names, self.union(d, kinds) if self.chance(3) else
                                                self.select(d - 1, width=len(some), kinds=kinds)[0])
            rows = []
            for _ in range(self.pick([1, 1, 2, 3])):
                rows.append("(%s)" % ", ".join(self.constant(kind) for _, kind in some))
            return "INSERT INTO %s%s VALUES %s" % (t, names, ", ".join(rows))
        where = " WHERE " + self.boolean(scope, d)[0] if not self.chance(4) else ""
        if k == "delete":
            return "DELETE FROM %s%s" % (t, where)
        some = list(self.draw(st.permutations(cols)))[:self.pick([1, 1, 2])]
        sets = ", ".join("%s = %s" % (self.q(c), "NULL" if self.chance(6) else
                                      (self.num if kind == "n" else self.txt)(scope, 1)[0]) for c, kind in some)
        return "UPDATE %s SET %s%s" % (t, sets, where)

    def constant(self, kind):
        if self.chance(5):
            return "NULL"
        if kind == "t":
            return self.string()
        n = self.number()
        return self.pick([n, n, "-" + n, "1 + 1", "TRUE"])

    # ---------------------------------------------------------------- layout
    def layout(self, sql):
        """the same statement with other white space, comments and keyword case"""
        seps = [" ", " ", " ", "\n", "  ", "\t", " /* c */ ", " -- note\n"]
        if self.profile == "mysql":
            seps.append(" # note\n")
        if not self.chance(3):
            return sql
        out = []
        for part in split_quoted(sql):
            if part[0] in "'\"`":
                out.append(part)
                continue
            words = part.split(" ")
            piece = words[0]
            for w in words[1:]:
                piece += (self.pick(seps) if self.chance(4) else " ") + w
            out.append(piece)
        return "".join(out) + self.pick(["", "", ";", " ", "\n", " ;"])


def split_quoted(sql):
    out, i, cur = [], 0, ""
    while i < len(sql):
        ch = sql[i]
        if ch in "'\"`":
            if cur:
                out.append(cur)
                cur = ""
            j = i + 1
            while True:
                if sql[j] == ch:
                    if j + 1 < len(sql) and sql[j + 1] == ch:
                        j += 2
                        continue
                    break
                j += 1
            out.append(sql[i:j + 1])
            i = j + 1
        else:
            cur += ch
            i += 1
    if cur:
        out.append(cur)
    return out


@st.composite
def statements(draw, profile, depth=2):
    g = Gen(draw, profile)
    sql = g.statement(depth)
    return {"profile": profile, "sql": g.layout(sql), "uses": sorted(g.used)}
