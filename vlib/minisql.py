"""A small, strict, in-memory SQL engine with the MySQL semantics the proxy relies on.

It is the *oracle side* of the end-to-end checks: the code under test sends its
rewritten SQL to one instance of it (behind vlib.fakemysql), while the original
plaintext statements are executed by another instance.  It shares no code with
/repo: own lexer, own parser, own evaluator.  Anything it does not understand is
a syntax error (ProgrammingError 1064), so SQL that MySQL would reject is
rejected here too (e.g. double-quoted identifiers are string literals).

Deliberate simplifications: binary (case-sensitive, no-pad) collation; strict SQL
mode; full three-valued logic; a SELECT without ORDER BY yields insertion order.
"""
import re
from decimal import Decimal

__all__ = ["SqlError", "Database", "Session", "parse_statement"]


class SqlError(Exception):
    def __init__(self, errno, msg):
        super().__init__("%d: %s" % (errno, msg))
        self.errno = errno
        self.msg = msg


def syntax(msg):
    return SqlError(1064, "You have an error in your SQL syntax; " + msg)


# ------------------------------------------------------------------ lexer
TOKEN = re.compile(r"""
    (?P<ws>\s+|\#[^\n]*|--\s[^\n]*|/\*.*?\*/)
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)
  | (?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
  | (?P<bq>`(?:[^`]|``)*`)
  | (?P<var>@[A-Za-z0-9_$.]+)
  | (?P<id>[^\W\d][\w$]*)
  | (?P<op>:=|<=>|<=|>=|<>|!=|\|\||&&|<<|>>|[-+*/%(),.=<>;!|&^~])
""", re.X | re.S | re.U)

ESC = {"0": "\0", "'": "'", '"': '"', "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a", "\\": "\\"}


def unescape(body, quote):
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c == "\\" and i + 1 < len(body):
            n = body[i + 1]
            if n in "%_":
                out.append("\\" + n)
            else:
                out.append(ESC.get(n, n))
            i += 2
        elif c == quote and body[i + 1:i + 2] == quote:
            out.append(quote)
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out)


def lex(sql):
    pos, out = 0, []
    while pos < len(sql):
        m = TOKEN.match(sql, pos)
        if not m:
            raise syntax("near %r" % sql[pos:pos + 30])
        kind, text = m.lastgroup, m.group()
        pos = m.end()
        if kind == "ws":
            continue
        if kind == "num":
            # 12abc is an identifier-like token in MySQL; nothing here emits it
            if pos < len(sql) and (sql[pos].isalpha() or sql[pos] == "_"):
                raise syntax("near %r" % sql[m.start():pos + 10])
            out.append(("num", text))
        elif kind == "str":
            out.append(("str", unescape(text[1:-1], text[0])))
        elif kind == "bq":
            out.append(("id", text[1:-1].replace("``", "`")))
        elif kind == "id":
            out.append(("word", text))
        else:
            out.append((kind, text))
    out.append(("end", ""))
    return out


RESERVED = set("""select from where and or not in is null like between join inner left right outer cross on as
group by having order limit insert into values update set delete create table drop alter add distinct case when then
else end union all primary key foreign references constraint asc desc exists int varchar char float double decimal
bigint smallint tinyint using div mod xor default unique index fulltext if""".split())
NONRESERVED = set("offset end".split())


# ------------------------------------------------------------------ AST helpers
# expressions are tuples: ("lit", v) ("col", qual|None, name) ("var", name)
# ("assign", name, e) ("un", op, e) ("bin", op, a, b) ("func", name, [args], distinct)
# ("like", a, b, neg) ("in", a, [items]|select, neg) ("between", a, lo, hi, neg) ("isnull", a, neg)
# ("case", operand, [(w, t)], else) ("sub", select) ("exists", select) ("star", qual|None)

class Parser:
    def __init__(self, sql):
        self.toks = lex(sql)
        self.i = 0

    # -- token helpers
    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)]

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def iskw(self, *words, k=0):
        t = self.peek(k)
        return t[0] == "word" and t[1].lower() in words

    def kw(self, *words):
        if self.iskw(*words):
            return self.next()[1].lower()
        return None

    def need(self, *words):
        r = None
        for w in words:
            r = self.kw(w)
            if not r:
                raise syntax("expected %s near %r" % (w, self.peek()[1]))
        return r

    def isop(self, *ops, k=0):
        t = self.peek(k)
        return t[0] == "op" and t[1] in ops

    def op(self, *ops):
        if self.isop(*ops):
            return self.next()[1]
        return None

    def needop(self, o):
        if not self.op(o):
            raise syntax("expected %r near %r" % (o, self.peek()[1]))

    def ident(self):
        t = self.peek()
        if t[0] == "id" or (t[0] == "word" and t[1].lower() not in RESERVED):
            self.next()
            return t[1]
        raise syntax("identifier expected near %r" % (t[1],))

    # -- statements
    def statement(self):
        if self.iskw("select") or self.isop("("):
            s = ("select", self.query())
        elif self.kw("insert"):
            s = self.insert()
        elif self.kw("update"):
            s = self.update()
        elif self.kw("delete"):
            s = self.delete()
        elif self.kw("create"):
            s = self.create()
        elif self.kw("drop"):
            self.need("table")
            ife = False
            if self.kw("if"):
                self.need("exists")
                ife = True
            names = [self.ident()]
            while self.op(","):
                names.append(self.ident())
            s = ("drop", names, ife)
        elif self.kw("alter"):
            s = self.alter()
        elif self.kw("set"):
            items = []
            while True:
                t = self.next()
                if t[0] != "var":
                    raise syntax("only user variables")
                if not self.op("=", ":="):
                    raise syntax("= expected")
                items.append((t[1][1:].lower(), self.expr()))
                if not self.op(","):
                    break
            s = ("setvars", items)
        elif self.kw("commit"):
            s = ("commit",)
        elif self.kw("rollback"):
            s = ("rollback",)
        else:
            raise syntax("near %r" % (self.peek()[1],))
        self.op(";")
        if self.peek()[0] != "end":
            raise syntax("near %r" % (self.peek()[1],))
        return s

    def collist(self):
        self.needop("(")
        cols = [self.ident()]
        while self.op(","):
            cols.append(self.ident())
        self.needop(")")
        return cols

    def insert(self):
        self.need("into")
        table = self.ident()
        cols = None
        if self.isop("("):
            cols = self.collist()
        if self.iskw("select"):
            return ("insert_select", table, cols, self.query())
        self.kw("values", "value") or self._fail()
        rows = []
        while True:
            self.needop("(")
            row = []
            if not self.isop(")"):
                row.append(self.expr_or_default())
                while self.op(","):
                    row.append(self.expr_or_default())
            self.needop(")")
            rows.append(row)
            if not self.op(","):
                break
        return ("insert", table, cols, rows)

    def _fail(self):
        raise syntax("near %r" % (self.peek()[1],))

    def expr_or_default(self):
        if self.kw("default"):
            return ("default",)
        return self.expr()

    def update(self):
        table = self.ident()
        self.need("set")
        sets = []
        while True:
            name = self.ident()
            if self.op("."):
                name = self.ident()
            self.needop("=")
            sets.append((name, self.expr()))
            if not self.op(","):
                break
        where = self.expr() if self.kw("where") else None
        return ("update", table, sets, where)

    def delete(self):
        self.need("from")
        table = self.ident()
        where = self.expr() if self.kw("where") else None
        return ("delete", table, where)

    TYPES = {"int": 1, "integer": 1, "bigint": 1, "smallint": 1, "tinyint": 1, "varchar": 1, "char": 1,
             "float": 2, "double": 2, "decimal": 2, "text": 1, "datetime": 1, "timestamp": 1, "date": 0, "blob": 1}

    def create(self):
        self.need("table")
        ifn = False
        if self.kw("if"):
            self.need("not", "exists")
            ifn = True
        name = self.ident()
        self.needop("(")
        cols, cons = [], []
        while True:
            if self.iskw("constraint", "primary", "foreign", "unique", "index", "key"):
                cons.append(self.constraint())
            else:
                cols.append(self.coldef())
            if not self.op(","):
                break
        self.needop(")")
        opts = {}
        while self.peek()[0] == "word":
            k = self.next()[1].lower()
            if k == "default":
                continue
            if k == "character":
                self.need("set")
            if k not in ("engine", "auto_increment", "collate", "charset", "character", "comment"):
                raise syntax("near %r" % k)
            self.op("=")
            t = self.next()
            if t[0] not in ("word", "num", "str", "id"):
                raise syntax("near %r" % (t[1],))
            opts[k] = t[1]
        return ("create", name, cols, cons, ifn, opts)

    def coldef(self):
        name = self.ident()
        t = self.next()
        if t[0] != "word" or t[1].lower() not in self.TYPES:
            raise syntax("unknown type near %r" % (t[1],))
        typ, args = t[1].lower(), []
        if self.op("("):
            while True:
                n = self.next()
                if n[0] != "num":
                    raise syntax("near %r" % (n[1],))
                args.append(int(n[1]))
                if not self.op(","):
                    break
            self.needop(")")
            if len(args) > self.TYPES[typ]:
                raise syntax("type arguments")
        if typ == "varchar" and not args:
            raise syntax("varchar needs a length")
        c = {"name": name, "type": typ, "args": args, "null": True, "default": None, "pk": False, "auto": False,
             "unsigned": False}
        while True:
            if self.kw("unsigned"):
                c["unsigned"] = True
            elif self.kw("not"):
                self.need("null")
                c["null"] = False
            elif self.kw("null"):
                pass
            elif self.kw("primary"):
                self.need("key")
                c["pk"] = True
            elif self.kw("unique"):
                self.kw("key")
                c["unique"] = True
            elif self.iskw("auto_increment"):
                self.next()
                c["auto"] = True
            elif self.kw("default"):
                t = self.next()
                if t[0] in ("str",):
                    c["default"] = t[1]
                elif t[0] == "num":
                    c["default"] = numlit(t[1])
                elif t[0] == "op" and t[1] == "-" and self.peek()[0] == "num":
                    c["default"] = -numlit(self.next()[1])
                elif t[0] == "word" and t[1].lower() == "null":
                    c["default"] = None
                elif t[0] == "word" and t[1].lower() == "current_timestamp":
                    c["default"] = "1970-01-01 00:00:00"
                else:
                    raise syntax("bad default near %r" % (t[1],))
            elif self.iskw("comment"):
                self.next()
                if self.next()[0] != "str":
                    raise syntax("comment")
            elif self.iskw("collate"):
                self.next()
                c["collate"] = self.ident().lower()
            else:
                break
        return c

    def constraint(self):
        cname = None
        if self.kw("constraint"):
            if not self.iskw("primary", "foreign", "unique"):
                cname = self.ident()
        if self.kw("primary"):
            self.need("key")
            return ("pk", cname, self.collist())
        if self.kw("foreign"):
            self.need("key")
            cols = self.collist()
            self.need("references")
            rt = self.ident()
            rc = self.collist()
            return ("fk", cname, cols, rt, rc)
        if self.kw("unique"):
            self.kw("key", "index")
            if not self.isop("("):
                cname = self.ident()
            return ("unique", cname, self.collist())
        if self.kw("index", "key"):
            if not self.isop("("):
                cname = self.ident()
            return ("index", cname, self.collist())
        raise syntax("constraint")

    def alter(self):
        self.need("table")
        t = self.ident()
        if self.kw("add"):
            if self.iskw("index", "fulltext"):
                kind = self.next()[1].lower()
                n = self.ident()
                return ("alter", t, "add", (kind, n, self.collist()))
            return ("alter", t, "add", self.constraint())
        if self.kw("drop"):
            if self.kw("primary"):
                self.need("key")
                return ("alter", t, "drop", ("pk", None))
            if self.kw("foreign"):
                self.need("key")
                return ("alter", t, "drop", ("fk", self.ident()))
            if self.kw("index"):
                return ("alter", t, "drop", ("index", self.ident()))
        raise syntax("alter")

    # -- queries
    def query(self):
        q = self.query_term()
        while self.kw("union"):
            all_ = bool(self.kw("all"))
            q = ("union", all_, q, self.query_term())
        return q

    def query_term(self):
        if self.op("("):
            q = self.query()
            self.needop(")")
            return q
        return ("q", self.select())

    def select(self):
        self.need("select")
        s = {"distinct": bool(self.kw("distinct")), "items": [], "from": None, "where": None, "group": [],
             "having": None, "order": [], "limit": None, "offset": 0}
        while True:
            s["items"].append(self.select_item())
            if not self.op(","):
                break
        if self.kw("from"):
            s["from"] = self.from_clause()
        if self.kw("where"):
            s["where"] = self.expr()
        if self.kw("group"):
            self.need("by")
            while True:
                s["group"].append(self.expr())
                if not self.op(","):
                    break
        if self.kw("having"):
            s["having"] = self.expr()
        if self.kw("order"):
            self.need("by")
            while True:
                e = self.expr()
                d = self.kw("asc", "desc") or "asc"
                s["order"].append((e, d == "desc"))
                if not self.op(","):
                    break
        if self.kw("limit"):
            a = self.intlit()
            if self.op(","):
                s["offset"], s["limit"] = a, self.intlit()
            else:
                s["limit"] = a
                if self.iskw("offset"):
                    self.next()
                    s["offset"] = self.intlit()
        return s

    def intlit(self):
        t = self.next()
        if t[0] != "num" or not t[1].isdigit():
            raise syntax("integer expected near %r" % (t[1],))
        return int(t[1])

    def select_item(self):
        if self.op("*"):
            return (("star", None), None)
        if self.peek()[0] in ("word", "id") and self.isop(".", k=1) and self.isop("*", k=2):
            q = self.ident()
            self.next()
            self.next()
            return (("star", q), None)
        e = self.expr()
        alias = None
        if self.kw("as"):
            t = self.peek()
            if t[0] == "str":
                alias = self.next()[1]
            else:
                alias = self.ident()
        elif self.peek()[0] == "id" or (self.peek()[0] == "word" and self.peek()[1].lower() not in RESERVED):
            alias = self.ident()
        return (e, alias)

    def from_clause(self):
        f = self.joined()
        while self.op(","):
            f = ("join", "cross", f, self.joined(), None)
        return f

    def joined(self):
        left = self.table_factor()
        while True:
            if self.kw("inner"):
                self.need("join")
                kind = "inner"
            elif self.kw("cross"):
                self.need("join")
                kind = "cross"
            elif self.iskw("left", "right"):
                kind = self.next()[1].lower()
                self.kw("outer")
                self.need("join")
            elif self.kw("join"):
                kind = "inner"
            else:
                return left
            right = self.table_factor()
            cond = None
            if self.kw("on"):
                cond = self.expr()
            elif kind in ("left", "right"):
                raise syntax("outer join needs ON")
            left = ("join", kind, left, right, cond)

    def table_factor(self):
        if self.op("("):
            if self.iskw("select") or self.isop("("):
                q = self.query()
                self.needop(")")
                self.kw("as")
                return ("derived", q, self.ident())
            f = self.from_clause()
            self.needop(")")
            return f
        n = self.ident()
        alias = None
        if self.kw("as"):
            alias = self.ident()
        elif self.peek()[0] == "id" or (self.peek()[0] == "word" and self.peek()[1].lower() not in RESERVED):
            alias = self.ident()
        return ("table", n, alias or n)

    # -- expressions
    def expr(self):
        t = self.peek()
        if t[0] == "var" and self.isop(":=", k=1):
            self.next()
            self.next()
            return ("assign", t[1][1:].lower(), self.expr())
        return self.or_()

    def or_(self):
        a = self.xor_()
        while self.kw("or") or self.op("||"):
            a = ("bin", "or", a, self.xor_())
        return a

    def xor_(self):
        a = self.and_()
        while self.kw("xor"):
            a = ("bin", "xor", a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.kw("and") or self.op("&&"):
            a = ("bin", "and", a, self.not_())
        return a

    def not_(self):
        if self.kw("not"):
            return ("un", "not", self.not_())
        return self.comparison()

    def comparison(self):
        a = self.bitor()
        while True:
            o = self.op("=", "<=>", "<", ">", "<=", ">=", "<>", "!=")
            if o:
                b = self.bitor()
                a = ("bin", {"!=": "<>"}.get(o, o), a, b)
                continue
            if self.kw("is"):
                neg = bool(self.kw("not"))
                self.need("null")
                a = ("isnull", a, neg)
                continue
            neg = False
            if self.iskw("not") and self.iskw("like", "in", "between", k=1):
                self.next()
                neg = True
            if self.kw("like"):
                a = ("like", a, self.bitor(), neg)
                continue
            if self.kw("in"):
                self.needop("(")
                if self.iskw("select"):
                    q = self.query()
                    self.needop(")")
                    a = ("in", a, ("sub", q), neg)
                else:
                    items = [self.expr()]
                    while self.op(","):
                        items.append(self.expr())
                    self.needop(")")
                    a = ("in", a, items, neg)
                continue
            if self.kw("between"):
                lo = self.bitor()
                self.need("and")
                hi = self.bitor()
                a = ("between", a, lo, hi, neg)
                continue
            return a

    def bitor(self):
        a = self.bitand()
        while self.op("|"):
            a = ("bin", "|", a, self.bitand())
        return a

    def bitand(self):
        a = self.shift()
        while self.op("&"):
            a = ("bin", "&", a, self.shift())
        return a

    def shift(self):
        a = self.add()
        while True:
            o = self.op("<<", ">>")
            if not o:
                return a
            a = ("bin", o, a, self.add())

    def add(self):
        a = self.mul()
        while True:
            o = self.op("+", "-")
            if not o:
                return a
            a = ("bin", o, a, self.mul())

    def mul(self):
        a = self.unary()
        while True:
            o = self.op("*", "/", "%") or self.kw("div", "mod")
            if not o:
                return a
            a = ("bin", {"mod": "%"}.get(o, o), a, self.unary())

    def unary(self):
        if self.op("-"):
            return ("un", "-", self.unary())
        if self.op("+"):
            return self.unary()
        if self.op("!"):
            return ("un", "not", self.unary())
        if self.op("~"):
            return ("un", "~", self.unary())
        return self.primary()

    def primary(self):
        k, v = self.peek()
        if k == "num":
            self.next()
            return ("lit", numlit(v))
        if k == "str":
            self.next()
            while self.peek()[0] == "str":
                v += self.next()[1]
            return ("lit", v)
        if k == "var":
            self.next()
            return ("var", v[1:].lower())
        if self.op("("):
            if self.iskw("select") or (self.isop("(") and self.iskw("select", k=1)):
                q = self.query()
                self.needop(")")
                return ("sub", q)
            e = self.expr()
            self.needop(")")
            return e
        if k == "word":
            w = v.lower()
            if w == "null":
                self.next()
                return ("lit", None)
            if w in ("true", "false"):
                self.next()
                return ("lit", int(w == "true"))
            if w == "exists":
                self.next()
                self.needop("(")
                q = self.query()
                self.needop(")")
                return ("exists", q)
            if w == "case":
                return self.case()
            if self.isop("(", k=1) and (w not in RESERVED or w in ("mod", "if", "left", "right", "values", "char")):
                self.next()
                self.next()
                if self.op("*"):
                    self.needop(")")
                    if w != "count":
                        raise syntax("near *")
                    return ("func", w, [("star", None)], False)
                distinct = bool(self.kw("distinct"))
                args = []
                if not self.isop(")"):
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                self.needop(")")
                return ("func", w, args, distinct)
        name = self.ident()
        if self.isop(".") and not self.isop("*", k=1):
            self.next()
            t = self.peek()
            if t[0] == "word":  # after a dot reserved words are allowed
                self.next()
                col = t[1]
            else:
                col = self.ident()
            return ("col", name, col)
        return ("col", None, name)

    def case(self):
        self.next()
        operand = None
        if not self.iskw("when"):
            operand = self.expr()
        whens, els = [], None
        while self.kw("when"):
            w = self.expr()
            self.need("then")
            whens.append((w, self.expr()))
        if not whens:
            raise syntax("case")
        if self.kw("else"):
            els = self.expr()
        self.need("end")
        return ("case", operand, whens, els)


def numlit(text):
    if text.isdigit():
        return int(text)
    if "e" in text.lower():
        return float(text)
    return Decimal(text)


def parse_statement(sql):
    return Parser(sql).statement()


# ------------------------------------------------------------------ values
def num(v):
    """MySQL implicit conversion to a number (None stays None)."""
    if v is None or isinstance(v, (int, float, Decimal)):
        return v
    m = re.match(r"\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)", v)
    if not m:
        return 0
    t = m.group(1)
    return float(t)


def truth(v):
    if v is None:
        return None
    return num(v) != 0


def both(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a), float(b)
    if isinstance(a, Decimal) or isinstance(b, Decimal):
        return Decimal(a), Decimal(b)
    return a, b


def compare(a, b):
    if a is None or b is None:
        return None
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    a, b = both(num(a), num(b))
    return (a > b) - (a < b)


def tostr(v):
    if v is None:
        return None
    if isinstance(v, str):
        return v
    if isinstance(v, float):
        return repr(v)
    return str(v)


def like(s, p):
    if s is None or p is None:
        return None
    s, p = tostr(s), tostr(p)
    rx, i = [], 0
    while i < len(p):
        c = p[i]
        if c == "\\" and i + 1 < len(p):
            rx.append(re.escape(p[i + 1]))
            i += 2
            continue
        rx.append(".*" if c == "%" else "." if c == "_" else re.escape(c))
        i += 1
    return re.fullmatch("".join(rx), s, re.S) is not None


def b2i(b):
    return None if b is None else int(b)


def fmod(a, b):
    if b == 0:
        return None
    if isinstance(a, int) and isinstance(b, int):
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    a, b = both(a, b)
    if isinstance(a, float):
        import math
        return math.fmod(a, b)
    return a % b  # Decimal keeps the dividend's sign


INT_RANGES = {"tinyint": 8, "smallint": 16, "int": 32, "integer": 32, "bigint": 64}


def coerce(col, v):
    """Store v into a column (strict mode)."""
    t = col["type"]
    if v is None:
        if not col["null"]:
            raise SqlError(1048, "Column '%s' cannot be null" % col["name"])
        return None
    if t in INT_RANGES:
        if isinstance(v, str):
            if not re.fullmatch(r"\s*[-+]?\d+(\.\d+)?\s*", v):
                raise SqlError(1366, "Incorrect integer value: '%s' for column '%s'" % (v, col["name"]))
            v = Decimal(v.strip())
        if not isinstance(v, int):
            v = int(Decimal(str(v)).to_integral_value(rounding="ROUND_HALF_UP"))
        bits = INT_RANGES[t]
        lo, hi = (0, 2 ** bits - 1) if col.get("unsigned") else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        if not lo <= v <= hi:
            raise SqlError(1264, "Out of range value for column '%s'" % col["name"])
        return int(v)
    if t in ("varchar", "char"):
        v = tostr(v)
        n = col["args"][0] if col["args"] else 1
        if len(v) > n:
            raise SqlError(1406, "Data too long for column '%s'" % col["name"])
        if t == "char":
            v = v.rstrip(" ")
        return v
    if t in ("datetime", "timestamp", "date"):
        return Moment(tostr(v))
    if t in ("text", "blob"):
        return tostr(v)
    if t in ("float", "double"):
        if isinstance(v, str):
            if not re.fullmatch(r"\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*", v):
                raise SqlError(1265, "Data truncated for column '%s'" % col["name"])
        return float(v)
    if t == "decimal":
        m, d = (list(col["args"]) + [10, 0][len(col["args"]):]) if col["args"] else (10, 0)
        if len(col["args"]) == 1:
            m, d = col["args"][0], 0
        if isinstance(v, str):
            if not re.fullmatch(r"\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*", v):
                raise SqlError(1366, "Incorrect decimal value: '%s' for column '%s'" % (v, col["name"]))
            v = v.strip()
        import decimal
        with decimal.localcontext() as ctx:
            ctx.prec = 200
            x = Decimal(str(v) if isinstance(v, float) else v)
            q = x.quantize(Decimal(1).scaleb(-d), rounding="ROUND_HALF_UP")
            if abs(q) >= Decimal(10) ** (m - d):
                raise SqlError(1264, "Out of range value for column '%s'" % col["name"])
        return q
    raise SqlError(1064, "type %s" % t)


class Moment(str):
    """the value of a column of a date or time type"""


# ------------------------------------------------------------------ engine
class Table:
    def __init__(self, name, cols):
        self.name = name
        self.cols = cols
        self.names = [c["name"] for c in cols]
        low = [n.lower() for n in self.names]
        if len(set(low)) != len(low):
            raise SqlError(1060, "Duplicate column name")
        self.bynames = {n.lower(): i for i, n in enumerate(self.names)}
        self.rows = []          # list of lists, insertion order
        self.pk = None
        self.uniques = {}
        self.fks = {}
        self.indexes = {}
        self.auto = 1

    def idx(self, name):
        i = self.bynames.get(name.lower())
        if i is None:
            raise SqlError(1054, "Unknown column '%s' in '%s'" % (name, self.name))
        return i


class Database:
    def __init__(self):
        self.tables = {}

    def get(self, name):
        t = self.tables.get(name)
        if t is None:
            raise SqlError(1146, "Table '%s' doesn't exist" % name)
        return t


AGGS = {"count", "sum", "avg", "max", "min", "group_concat"}


def has_agg(e):
    if not isinstance(e, tuple):
        if isinstance(e, list):
            return any(has_agg(x) for x in e)
        return False
    if e and e[0] == "func" and e[1] in AGGS:
        return True
    if e and e[0] in ("sub", "exists"):
        return False
    return any(has_agg(x) for x in e[1:])


class Scope:
    """columns: list of (qualifier, name); row: list of values; parent for correlation"""
    __slots__ = ("cols", "row", "parent", "group", "index", "aliases")

    def __init__(self, cols, row=None, parent=None, index=None):
        self.cols, self.row, self.parent, self.group = cols, row, parent, None
        self.aliases = None
        if index is None:
            index = {}
            for i, (q, n) in enumerate(cols):
                index.setdefault(n.lower(), []).append(i)
        self.index = index

    def with_row(self, row):
        s = Scope(self.cols, row, self.parent, self.index)
        return s

    def lookup(self, qual, name):
        hits = self.index.get(name.lower(), ())
        if qual is not None:
            hits = [i for i in hits if self.cols[i][0] == qual]
        if len(hits) > 1:
            raise SqlError(1052, "Column '%s' is ambiguous" % name)
        if hits:
            return self, hits[0]
        if self.parent is not None:
            return self.parent.lookup(qual, name)
        raise SqlError(1054, "Unknown column '%s'" % (("%s." % qual if qual else "") + name))


class Session:
    """One connection's view: executes statements, keeps user variables and an undo log."""

    def __init__(self, db):
        self.db = db
        self.vars = {}
        self.undo = []
        self.lastrowid = 0

    # -- transactions
    def commit(self):
        self.undo = []

    def rollback(self):
        while self.undo:
            self.undo.pop()()

    # -- entry
    def execute(self, sql):
        """returns (columns|None, rows|None, affected)"""
        st = parse_statement(sql)
        k = st[0]
        if k == "select":
            cols, rows = self.run_query(st[1], None)
            return cols, rows, len(rows)
        if k in ("create", "drop", "alter"):
            self.commit()
            getattr(self, "do_" + k)(*st[1:])
            return None, None, 0
        if k == "setvars":
            for n, e in st[1]:
                self.vars[n] = self.ev(e, Scope([]))
            return None, None, 0
        if k in ("commit", "rollback"):
            getattr(self, k)()
            return None, None, 0
        mark = len(self.undo)
        try:
            n = getattr(self, "do_" + k)(*st[1:])
        except Exception:
            while len(self.undo) > mark:
                self.undo.pop()()
            raise
        return None, None, n

    # -- DDL
    def do_create(self, name, cols, cons, ifn, opts):
        if name in self.db.tables:
            if ifn:
                return
            raise SqlError(1050, "Table '%s' already exists" % name)
        if not cols:
            raise SqlError(1113, "A table must have at least 1 column")
        t = Table(name, [dict(c) for c in cols])
        pks = [c["name"] for c in cols if c["pk"]]
        if pks:
            if len(pks) > 1:
                raise SqlError(1068, "Multiple primary key defined")
            self.set_pk(t, pks)
        for c in cols:
            if c.get("unique"):
                t.uniques[c["name"]] = [t.idx(c["name"])]
            if c["auto"] and not c["pk"]:
                raise SqlError(1075, "there can be only one auto column and it must be defined as a key")
            if c["default"] is not None:
                c2 = t.cols[t.idx(c["name"])]
                c2["default"] = coerce(c2, c["default"])
        for con in cons:
            self.add_constraint(t, con)
        self.db.tables[name] = t

    def set_pk(self, t, names):
        if t.pk is not None:
            raise SqlError(1068, "Multiple primary key defined")
        ids = [t.idx(n) for n in names]
        for r in t.rows:
            if any(r[i] is None for i in ids):
                raise SqlError(1138, "Invalid use of NULL value")
        seen = set()
        for r in t.rows:
            kk = tuple(r[i] for i in ids)
            if kk in seen:
                raise SqlError(1062, "Duplicate entry for key 'PRIMARY'")
            seen.add(kk)
        t.pk = ids
        for i in ids:
            t.cols[i]["null"] = False

    def add_constraint(self, t, con):
        if con[0] == "pk":
            self.set_pk(t, con[2])
        elif con[0] == "fk":
            ids = [t.idx(n) for n in con[2]]
            rt = t if con[3] == t.name else self.db.get(con[3])
            rids = [rt.idx(n) for n in con[4]]
            if len(ids) != len(rids):
                raise SqlError(1239, "Incorrect foreign key definition")
            if rt.pk != rids and rids not in [u for u in rt.uniques.values()]:
                raise SqlError(1822, "Missing index for constraint in the referenced table")
            name = con[1] or "%s_ibfk_%d" % (t.name, len(t.fks) + 1)
            if name in t.fks:
                raise SqlError(1826, "Duplicate foreign key constraint name")
            for r in t.rows:
                self.check_fk_row(t, r, ids, rt, rids)
            t.fks[name] = (ids, con[3], rids)
        elif con[0] == "unique":
            ids = [t.idx(n) for n in con[2]]
            seen = set()
            for r in t.rows:
                kk = tuple(r[i] for i in ids)
                if None not in kk and kk in seen:
                    raise SqlError(1062, "Duplicate entry")
                seen.add(kk)
            t.uniques[con[1] or con[2][0]] = ids
        else:
            for n in con[2]:
                t.idx(n)
            t.indexes[con[1]] = con[2]

    def check_fk_row(self, t, r, ids, rt, rids):
        kk = [r[i] for i in ids]
        if None in kk:
            return
        for o in rt.rows:
            if [o[i] for i in rids] == kk:
                return
        raise SqlError(1452, "Cannot add or update a child row: a foreign key constraint fails")

    def do_drop(self, names, ife):
        for n in names:
            if n not in self.db.tables:
                if ife:
                    continue
                raise SqlError(1051, "Unknown table '%s'" % n)
            for o in self.db.tables.values():
                if o.name != n and any(fk[1] == n for fk in o.fks.values()):
                    raise SqlError(3730, "Cannot drop table referenced by a foreign key constraint")
            del self.db.tables[n]

    def do_alter(self, name, act, what):
        t = self.db.get(name)
        if act == "add":
            self.add_constraint(t, what)
        elif what[0] == "pk":
            if t.pk is None:
                raise SqlError(1091, "Can't DROP 'PRIMARY'; check that column/key exists")
            t.pk = None
        elif what[0] == "fk":
            if what[1] not in t.fks:
                raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % what[1])
            del t.fks[what[1]]
        else:
            if what[1] in t.indexes:
                del t.indexes[what[1]]
            elif what[1] in t.uniques:
                del t.uniques[what[1]]
            else:
                raise SqlError(1091, "Can't DROP '%s'; check that column/key exists" % what[1])

    # -- DML
    def check_row(self, t, row, skip=None):
        for label, ids in [("PRIMARY", t.pk)] + list(t.uniques.items()):
            if not ids:
                continue
            kk = [row[i] for i in ids]
            if None in kk:
                continue
            for o in t.rows:
                if o is not skip and [o[i] for i in ids] == kk:
                    raise SqlError(1062, "Duplicate entry for key '%s'" % label)
        for ids, rn, rids in t.fks.values():
            self.check_fk_row(t, row, ids, self.db.get(rn), rids)

    def check_parent(self, t, row, newrow=None):
        """row is about to disappear / change: no child may reference it"""
        for c in self.db.tables.values():
            for ids, rn, rids in c.fks.values():
                if rn != t.name:
                    continue
                kk = [row[i] for i in rids]
                if newrow is not None and [newrow[i] for i in rids] == kk:
                    continue
                for cr in c.rows:
                    if [cr[i] for i in ids] == kk and cr is not row:
                        raise SqlError(1451, "Cannot delete or update a parent row")

    def do_insert(self, name, cols, rows):
        t = self.db.get(name)
        ids = [t.idx(c) for c in cols] if cols is not None else list(range(len(t.cols)))
        if len(set(ids)) != len(ids):
            raise SqlError(1110, "Column specified twice")
        sc = Scope([])
        vals = []
        for r in rows:
            if len(r) != len(ids):
                raise SqlError(1136, "Column count doesn't match value count")
            vals.append([("D",) if e[0] == "default" else ("V", self.ev(e, sc)) for e in r])
        return self.insert_values(t, ids, vals)

    def do_insert_select(self, name, cols, q):
        t = self.db.get(name)
        ids = [t.idx(c) for c in cols] if cols is not None else list(range(len(t.cols)))
        c, rows = self.run_query(q, None)
        if len(c) != len(ids):
            raise SqlError(1136, "Column count doesn't match value count")
        return self.insert_values(t, ids, [[("V", v) for v in r] for r in rows])

    def insert_values(self, t, ids, vals):
        for r in vals:
            row = [None] * len(t.cols)
            given = {}
            for i, v in zip(ids, r):
                if v[0] == "V":
                    given[i] = v[1]
            for i, c in enumerate(t.cols):
                if i in given and not (c["auto"] and given[i] in (None, 0)):
                    row[i] = coerce(c, given[i])
                elif c["auto"]:
                    row[i] = t.auto
                elif c["default"] is not None:
                    row[i] = c["default"]
                elif not c["null"]:
                    raise SqlError(1364, "Field '%s' doesn't have a default value" % c["name"])
                if c["auto"]:
                    t.auto = max(t.auto, row[i] + 1)
            self.check_row(t, row)
            t.rows.append(row)
            self.undo.append(lambda t=t, row=row: t.rows.__delitem__(
                [k for k, x in enumerate(t.rows) if x is row][0]))
        return len(vals)

    def do_update(self, name, sets, where):
        t = self.db.get(name)
        cols = [(name, n) for n in t.names]
        base = Scope(cols)
        ids = [(t.idx(n), e) for n, e in sets]
        n = 0
        for k, row in enumerate(list(t.rows)):
            sc = base.with_row(row)
            if where is not None and truth(self.ev(where, sc)) is not True:
                continue
            new = list(row)
            for i, e in ids:
                new[i] = coerce(t.cols[i], self.ev(e, base.with_row(new)))
            if new != row:
                self.check_row(t, new, skip=row)
                self.check_parent(t, row, new)
                pos = [j for j, x in enumerate(t.rows) if x is row][0]
                t.rows[pos] = new

                def und(t=t, row=row, new=new):
                    for j, x in enumerate(t.rows):
                        if x is new:
                            t.rows[j] = row
                self.undo.append(und)
                n += 1
        return n

    def do_delete(self, name, where):
        t = self.db.get(name)
        base = Scope([(name, n) for n in t.names])
        keep, gone = [], []
        for row in t.rows:
            if where is None or truth(self.ev(where, base.with_row(row))) is True:
                gone.append(row)
            else:
                keep.append(row)
        for row in gone:
            self.check_parent(t, row)
        old = t.rows
        t.rows = keep
        self.undo.append(lambda t=t, old=old: setattr(t, "rows", old))
        return len(gone)

    # -- FROM
    def source(self, f, parent):
        """-> (cols [(qual, name)], rows [list])"""
        if f[0] == "table":
            t = self.db.get(f[1])
            return [(f[2], n) for n in t.names], [list(r) for r in t.rows]
        if f[0] == "derived":
            c, r = self.run_query(f[1], parent)
            low = [x.lower() for x in c]
            if len(set(low)) != len(low):
                raise SqlError(1060, "Duplicate column name")
            return [(f[2], n) for n in c], [list(x) for x in r]
        _, kind, a, b, cond = f
        ca, ra = self.source(a, parent)
        cb, rb = self.source(b, parent)
        qa, qb = set(q for q, _ in ca), set(q for q, _ in cb)
        if qa & qb:
            raise SqlError(1066, "Not unique table/alias: '%s'" % sorted(qa & qb)[0])
        cols = ca + cb
        base = Scope(cols, None, parent)
        if cond is not None and not (ra and rb):
            self.ev_check(cond, base)

        def ok(x, y):
            return cond is None or truth(self.ev(cond, base.with_row(x + y))) is True
        out = []
        if kind in ("inner", "cross"):
            out = [x + y for x in ra for y in rb if ok(x, y)]
        elif kind == "left":
            for x in ra:
                m = [x + y for y in rb if ok(x, y)]
                out += m or [x + [None] * len(cb)]
        else:
            for y in rb:
                m = [x + y for x in ra if ok(x, y)]
                out += m or [[None] * len(ca) + y]
        return cols, out

    def ev_check(self, e, scope):
        """name resolution even when no row is evaluated"""
        if isinstance(e, list):
            for x in e:
                self.ev_check(x, scope)
            return
        if not isinstance(e, tuple) or not e:
            return
        if e[0] == "col":
            try:
                scope.lookup(e[1], e[2])
            except SqlError:
                if e[1] is None and scope.aliases and e[2].lower() in scope.aliases:
                    return
                raise
            return
        if e[0] in ("sub", "exists", "lit", "var"):
            return
        for x in e[1:]:
            if isinstance(x, (tuple, list)):
                self.ev_check(x, scope)

    # -- SELECT
    def run_query(self, q, parent):
        if q[0] == "union":
            c1, r1 = self.run_query(q[2], parent)
            c2, r2 = self.run_query(q[3], parent)
            if len(c1) != len(c2):
                raise SqlError(1222, "different number of columns")
            rows = r1 + r2
            if not q[1]:
                rows = dedup(rows)
            return c1, rows
        return self.run_select(q[1], parent)

    def run_select(self, s, parent):
        if s["from"] is not None:
            cols, rows = self.source(s["from"], parent)
        else:
            cols, rows = [], [[]]
        base = Scope(cols, None, parent)
        items = []
        for e, alias in s["items"]:
            if e[0] == "star":
                if s["from"] is None:
                    raise SqlError(1096, "No tables used")
                hit = [(q, n) for q, n in cols if e[1] is None or q == e[1]]
                if not hit:
                    raise SqlError(1051, "Unknown table '%s'" % e[1])
                pos = [i for i, (q, n) in enumerate(cols) if e[1] is None or q == e[1]]
                items += [(("pos", i), cols[i][1]) for i in pos]
            else:
                items.append((e, alias or exprname(e)))
        names = [n for _, n in items]
        aliases = {}
        for (e, n), (_, al) in zip(items, [(e, n) for e, n in items]):
            aliases.setdefault(n.lower(), e)
        base.aliases = aliases
        for e, _ in items:
            self.ev_check(e, Scope(cols, None, parent, base.index))
        if s["where"] is not None:
            self.ev_check(s["where"], Scope(cols, None, parent, base.index))
        for e, _ in s["order"]:
            self.ev_check(e, base)
        for e in s["group"]:
            self.ev_check(e, base)
        if s["having"] is not None:
            self.ev_check(s["having"], base)
        scopes = []
        for r in rows:
            sc = base.with_row(r)
            sc.aliases = aliases
            if s["where"] is None or truth(self.ev(s["where"], sc)) is True:
                scopes.append(sc)
        agg = bool(s["group"]) or any(has_agg(e) for e, _ in items) or (
            s["having"] is not None and has_agg(s["having"]))
        if agg:
            if s["group"]:
                groups, order = {}, []
                for sc in scopes:
                    kk = tuple(hashable(self.ev_alias(e, sc, items)) for e in s["group"])
                    if kk not in groups:
                        groups[kk] = []
                        order.append(kk)
                    groups[kk].append(sc)
                glist = [groups[k] for k in order]
            else:
                glist = [scopes]
            out = []
            for g in glist:
                sc = Scope(cols, g[0].row if g else [None] * len(cols), parent, base.index)
                sc.group = g
                sc.aliases = aliases
                if s["having"] is not None and truth(self.ev_alias(s["having"], sc, items)) is not True:
                    continue
                out.append(self.project(items, sc, s["order"]))
        else:
            out = []
            for sc in scopes:
                if s["having"] is not None and truth(self.ev_alias(s["having"], sc, items)) is not True:
                    continue
                out.append(self.project(items, sc, s["order"]))
        if s["distinct"]:
            seen, o2 = set(), []
            for vals, keys in out:
                kk = tuple(hashable(v) for v in vals)
                if kk not in seen:
                    seen.add(kk)
                    o2.append((vals, keys))
            out = o2
        for i in reversed(range(len(s["order"]))):
            desc = s["order"][i][1]
            out.sort(key=lambda vk: sortkey(vk[1][i]), reverse=desc)
        res = [v for v, _ in out]
        if s["limit"] is not None:
            res = res[s["offset"]:s["offset"] + s["limit"]]
        return names, res

    def project(self, items, sc, order):
        vals = tuple(sc.row[e[1]] if e[0] == "pos" else self.ev(e, sc) for e, _ in items)
        keys = []
        for e, _ in order:
            if e[0] == "lit" and isinstance(e[1], int):
                if not 1 <= e[1] <= len(items):
                    raise SqlError(1054, "Unknown column in 'order clause'")
                keys.append(vals[e[1] - 1])
                continue
            hit = None
            if e[0] == "col" and e[1] is None:
                for (ie, n), v in zip(items, vals):
                    if n.lower() == e[2].lower():
                        hit = (v,)
                        break
            keys.append(hit[0] if hit else self.ev_alias(e, sc, items))
        return vals, keys

    def ev_alias(self, e, sc, items):
        if e[0] == "col" and e[1] is None:
            try:
                s2, i = sc.lookup(None, e[2])
                return s2.row[i]
            except SqlError:
                for ie, n in items:
                    if n.lower() == e[2].lower():
                        return sc.row[ie[1]] if ie[0] == "pos" else self.ev(ie, sc)
                raise
        return self.ev(e, sc)

    # -- expressions
    def ev(self, e, sc):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "pos":
            return sc.row[e[1]]
        if k == "col":
            try:
                s2, i = sc.lookup(e[1], e[2])
            except SqlError:
                if e[1] is None and sc.group is not None and sc.aliases and e[2].lower() in sc.aliases:
                    return self.ev(sc.aliases[e[2].lower()], sc)
                raise
            return s2.row[i]
        if k == "var":
            return self.vars.get(e[1])
        if k == "assign":
            self.vars[e[1]] = v = self.ev(e[2], sc)
            return v
        if k == "un":
            v = self.ev(e[2], sc)
            if e[1] == "not":
                t = truth(v)
                return None if t is None else int(not t)
            if v is None:
                return None
            if e[1] == "-":
                return -num(v)
            return ~int(num(v)) & (2 ** 64 - 1)
        if k == "bin":
            return self.binop(e, sc)
        if k == "isnull":
            return int((self.ev(e[1], sc) is None) != e[2])
        if k == "like":
            r = like(self.ev(e[1], sc), self.ev(e[2], sc))
            return None if r is None else int(r != e[3])
        if k == "between":
            v, lo, hi = self.ev(e[1], sc), self.ev(e[2], sc), self.ev(e[3], sc)
            a, b = compare(v, lo), compare(v, hi)
            x = None if a is None else a >= 0
            y = None if b is None else b <= 0
            r = and3(x, y)
            return None if r is None else int(r != e[4])
        if k == "in":
            v = self.ev(e[1], sc)
            if isinstance(e[2], tuple):
                vals = [r[0] for r in self.run_query(e[2][1], sc)[1]]
            else:
                vals = [self.ev(x, sc) for x in e[2]]
            res = False
            for x in vals:
                c = compare(v, x)
                if c == 0:
                    res = True
                    break
                if c is None:
                    res = None
            return None if res is None else int(res != e[3])
        if k == "case":
            for w, t in e[2]:
                if e[1] is None:
                    hit = truth(self.ev(w, sc)) is True
                else:
                    hit = compare(self.ev(e[1], sc), self.ev(w, sc)) == 0
                if hit:
                    return self.ev(t, sc)
            return None if e[3] is None else self.ev(e[3], sc)
        if k == "sub":
            c, r = self.run_query(e[1], sc)
            if len(c) != 1:
                raise SqlError(1241, "Operand should contain 1 column(s)")
            if len(r) > 1:
                raise SqlError(1242, "Subquery returns more than 1 row")
            return r[0][0] if r else None
        if k == "exists":
            return int(bool(self.run_query(e[1], sc)[1]))
        if k == "func":
            return self.func(e, sc)
        if k == "star":
            raise syntax("near *")
        raise syntax("expression %r" % (e,))

    def binop(self, e, sc):
        o = e[1]
        if o == "and":
            return b2i(and3(truth(self.ev(e[2], sc)), truth(self.ev(e[3], sc))))
        if o == "or":
            a, b = truth(self.ev(e[2], sc)), truth(self.ev(e[3], sc))
            if a is True or b is True:
                return 1
            return None if a is None or b is None else 0
        a, b = self.ev(e[2], sc), self.ev(e[3], sc)
        if o == "<=>":
            if a is None or b is None:
                return int(a is None and b is None)
            return int(compare(a, b) == 0)
        if o in ("=", "<>", "<", ">", "<=", ">="):
            c = compare(a, b)
            if c is None:
                return None
            return int({"=": c == 0, "<>": c != 0, "<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0}[o])
        if a is None or b is None:
            return None
        if o == "xor":
            return int(truth(a) != truth(b))
        a, b = num(a), num(b)
        import decimal
        with decimal.localcontext() as ctx:
            ctx.prec = 81     # MySQL's intermediate decimal buffer
            if o in ("+", "-", "*"):
                a, b = both(a, b)
                return a + b if o == "+" else a - b if o == "-" else a * b
            if o == "/":
                if b == 0:
                    return None
                if isinstance(a, float) or isinstance(b, float):
                    return float(a) / float(b)
                return Decimal(a) / Decimal(b)
            if o == "div":
                if b == 0:
                    return None
                a, b = both(a, b)
                q = abs(a) // abs(b)
                return int(q if (a < 0) == (b < 0) else -q)
            if o == "%":
                return fmod(a, b)
        a, b = int(a), int(b)
        m = 2 ** 64 - 1
        if o == "|":
            return (a | b) & m
        if o == "&":
            return (a & b) & m
        if o == "<<":
            return (a << b) & m if b < 64 else 0
        if o == ">>":
            return (a & m) >> b
        raise syntax(o)

    def func(self, e, sc):
        name, args, distinct = e[1], e[2], e[3]
        if name in AGGS:
            if sc.group is None:
                raise SqlError(1111, "Invalid use of group function")
            g = sc.group
            if name == "count" and args[0][0] == "star":
                return len(g)
            vals = [self.ev(args[0], s) for s in g]
            if name == "count" and len(args) > 1:
                vals = [None if any(self.ev(a, s) is None for a in args)
                        else tuple(hashable(self.ev(a, s)) for a in args) for s in g]
            vals = [v for v in vals if v is not None]
            if distinct:
                seen, o = set(), []
                for v in vals:
                    h = v if isinstance(v, tuple) else hashable(v)
                    if h not in seen:
                        seen.add(h)
                        o.append(v)
                vals = o
            if name == "count":
                return len(vals)
            if not vals:
                return None
            if name == "group_concat":
                return ",".join(tostr(v) for v in vals)
            if name in ("max", "min"):
                best = vals[0]
                for v in vals[1:]:
                    c = compare(v, best)
                    if (c > 0) == (name == "max") and c != 0:
                        best = v
                return best
            ns = [num(v) for v in vals]
            if any(isinstance(v, float) for v in ns):
                tot = float(sum(float(v) for v in ns))
                return tot if name == "sum" else tot / len(ns)
            tot = sum(Decimal(v) for v in ns)
            if name == "sum":
                return tot
            return (tot / len(ns)).quantize(Decimal("0.0001"), rounding="ROUND_HALF_UP")
        vals = [self.ev(a, sc) for a in args]
        if name == "concat":
            return None if None in vals else "".join(tostr(v) for v in vals)
        if name in ("coalesce", "ifnull"):
            return next((v for v in vals if v is not None), None)
        if name == "nullif":
            return None if compare(vals[0], vals[1]) == 0 else vals[0]
        if name == "if":
            return vals[1] if truth(vals[0]) is True else vals[2]
        if name == "mod":
            return None if None in vals else fmod(num(vals[0]), num(vals[1]))
        if None in vals:
            return None
        if name == "abs":
            return abs(num(vals[0]))
        if name in ("length", "char_length"):
            s = tostr(vals[0])
            return len(s.encode()) if name == "length" else len(s)
        if name in ("upper", "ucase"):
            return tostr(vals[0]).upper()
        if name in ("lower", "lcase"):
            return tostr(vals[0]).lower()
        if name in ("substring", "substr"):
            s = tostr(vals[0])
            p = int(num(vals[1]))
            if p == 0:
                return ""
            st = p - 1 if p > 0 else len(s) + p
            if st < 0 or st >= len(s):
                return ""
            return s[st:] if len(vals) < 3 else s[st:st + max(0, int(num(vals[2])))]
        if name == "round":
            d = int(num(vals[1])) if len(vals) > 1 else 0
            q = Decimal(str(num(vals[0]))).quantize(Decimal(1).scaleb(-d), rounding="ROUND_HALF_UP")
            return q
        if name in ("greatest", "least"):
            best = vals[0]
            for v in vals[1:]:
                c = compare(v, best)
                if (c > 0) == (name == "greatest") and c != 0:
                    best = v
            return best
        raise SqlError(1305, "FUNCTION %s does not exist" % name)


def and3(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return True


def hashable(v):
    if isinstance(v, (int, Decimal)):
        return ("n", Decimal(v))
    if isinstance(v, float):
        return ("n", Decimal(repr(v)))
    return v


def dedup(rows):
    seen, out = set(), []
    for r in rows:
        k = tuple(hashable(v) for v in r)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def sortkey(v):
    if v is None:
        return (0, 0)
    if isinstance(v, str):
        return (2, v)
    return (1, v if not isinstance(v, float) else Decimal(repr(v)))


def exprname(e):
    if e[0] == "col":
        return e[2]
    return "expr:" + repr(e)
