"""C18: statement classification and metadata extraction of scheduler.compile.parser.Parser."""
from hypothesis import strategies as st

from vlib import rawsql
from vlib.core import Sub, Violation, short

PROPERTY = "C18"
TECHNIQUE = ("property-based testing: statements are generated together with the tables, columns, aliases, values and limits they "
             "name, which are the oracle; each is written in two ways (case, whitespace, comments), which must give the same")
LEVEL_NOTE = ("Supported statement forms of the extractor: SELECT with functions, aliases, joins, subqueries in FROM, WITH, grouping, "
              "ordering and limits; INSERT, UPDATE, DELETE, CREATE TABLE, ALTER TABLE, DROP TABLE; anything else must be refused.")
RULE = "the statement has a table, and a column, a value or an alias"
ASSUMPTIONS = ["aliases are names no column or table of the statement has",
               "names are not words of the SQL language unless in back quotes"]

TABLES = ["t", "orders", "Users", "fromage", "tab_1", "列表", "selects", "intox"]
COLUMNS = ["a", "b", "c", "id", "nameX", "wherever", "col_2", "列", "asx", "limits", "orderby1", "joiner"]
ALIASES = ["x", "y", "z", "al_1", "asy", "别名"]
FUNCS = ["sum", "COUNT", "max", "lower", "coalesce"]


class B:
    """builds the units and what is expected of them"""

    def __init__(self, draw):
        self.draw = draw
        self.out = []
        self.tables, self.columns, self.sections = [], [], {}
        self.aliases, self.taliases, self.values, self.limit = {}, {}, [], None
        self.free = draw(st.permutations(ALIASES))
        self.free = list(self.free)
        self.names = {}

    def pick(self, *o):
        return self.draw(st.sampled_from(o))

    def chance(self, n):
        return self.draw(st.integers(0, n)) == n

    def kw(self, *words):
        for w in words:
            self.out.append(["kw", w])

    def p(self, *texts):
        for t in texts:
            self.out.append(["punct", t])

    def name(self, n):
        self.out.append(["name", "`%s`" % n if self.chance(4) else n])

    def section(self, where, col):
        self.sections.setdefault(where, [])
        if col not in self.sections[where]:
            self.sections[where].append(col)
        if col not in self.columns:
            self.columns.append(col)

    def col(self, where):
        """a column, perhaps with its table or the alias of it"""
        c = self.pick(*COLUMNS)
        if self.quals and self.chance(2):
            q = self.pick(*self.quals)
            self.name(q)
            self.out.append(["dot", "."])
            full = self.taliases.get(q, q) + "." + c
        else:
            full = c
        self.name(c)
        self.section(where, full)
        return full

    def literal(self):
        k = self.draw(st.integers(0, 3))
        if k < 2:
            n = self.pick(0, 1, 42, 7)
            self.out.append(["int", str(n)])
            return n
        if k == 2:
            n = self.pick(1.5, 0.25)
            self.out.append(["float", str(n)])
            return n
        s = self.pick("x", "", "it is", "a\nb", "a, b", "select a from t", "(", ")", "v%", "1", "语", "limit 5", "/* c */", "-- c", ";", '"q"', "`b`")
        self.out.append(["str", "'%s'" % s])
        return s

    def source(self):
        """decide the tables first, so that columns can be written with their alias"""
        self.from_ = []
        self.quals = []
        for i in range(1 + self.chance(2) + self.chance(5)):
            t = self.pick(*TABLES)
            while t in [x[0] for x in self.from_]:
                t = self.pick(*TABLES)
            a = self.free.pop() if self.chance(1) else None
            self.from_.append((t, a))
            if a:
                self.taliases[a] = t
            self.quals.append(a or t)

    def condition(self, where="where"):
        for i in range(self.draw(st.integers(1, 3))):
            if i:
                self.kw(self.pick("and", "or"))
            k = self.draw(st.integers(0, 5))
            if k == 4:
                self.col(where)
                self.kw("in")
                self.p("(")
                for j in range(self.draw(st.integers(1, 3))):
                    if j:
                        self.p(",")
                    self.literal()
                self.p(")")
            elif k == 5:
                self.col(where)
                self.kw("like")
                self.out.append(["str", "'%" + self.pick("x", "ab", "from t") + "%'"])
            else:
                self.col(where)
                self.out.append(["op", self.pick("=", "<", ">=", "<>", ">")])
                self.literal()

    def field(self):
        k = self.draw(st.integers(0, 5))
        if k < 3:
            of = self.col("select")
        elif k < 5:
            self.out.append(["func", self.pick(*FUNCS)])
            self.p("(")
            of = self.col("select")
            self.p(")")
        else:
            a, op = self.col("select"), None
            self.out.append(["op", self.pick("+", "-", "/")])
            b = self.col("select")
            of = [a, b] if a != b else a
        if self.free and self.chance(2):
            a = self.free.pop()
            if self.chance(2) is False:
                self.kw("as")
            elif k >= 5:
                self.kw("as")
            else:
                self.out.append(["noas", ""])
            self.name(a)
            self.aliases[a] = of

    def select(self, limit=True):
        self.source()
        self.kw("select")
        if self.chance(5):
            self.kw("distinct")
        if self.chance(5):
            self.out.append(["op", "*"])
            self.section("select", "*")
        else:
            for i in range(self.draw(st.integers(1, 3))):
                if i:
                    self.p(",")
                self.field()
        self.kw("from")
        for i, (t, a) in enumerate(self.from_):
            joined = i and self.chance(1)
            if i:
                self.kw(self.pick("join", "left join", "inner join", "right join", "left outer join", "cross join")) if joined else self.p(",")
                if not joined and any(x[0] == "kw" and "join" in x[1] for x in self.out):
                    self.out.pop()
                    self.kw("join")
            self.name(t)
            if t not in self.tables:
                self.tables.append(t)
            if a:
                if self.chance(1):
                    self.kw("as")
                self.name(a)
            if joined:
                self.kw("on")
                self.col("join")
                self.out.append(["op", "="])
                self.col("join")
        if self.chance(1):
            self.kw("where")
            self.condition()
        if self.chance(4):
            self.kw("group by")
            self.col("group_by")
        if self.chance(3):
            self.kw("order by")
            for i in range(self.draw(st.integers(1, 2))):
                if i:
                    self.p(",")
                self.col("order_by")
                if self.chance(2):
                    self.kw(self.pick("desc", "asc"))
        if limit and self.chance(1):
            self.limits()

    def limits(self):
        self.kw("limit")
        n, m = self.pick(0, 1, 5, 100), self.pick(0, 1, 20)
        k = self.draw(st.integers(0, 2))
        self.limit = [n, 0 if k == 0 else m]
        if k == 2:
            self.out += [["int", str(m)], ["punct", ","], ["int", str(n)]]
        else:
            self.out.append(["int", str(n)])
            if k == 1:
                self.kw("offset")
                self.out.append(["int", str(m)])

    def some_columns(self, lo=1, hi=3):
        cols = self.draw(st.lists(st.sampled_from(COLUMNS), min_size=lo, max_size=hi, unique=True))
        return cols

    def into(self, verb="insert"):
        self.kw(verb, "into")
        t = self.pick(*TABLES)
        self.name(t)
        self.tables.append(t)
        cols = self.some_columns()
        if self.chance(2):
            names = ["column_%d" % (i + 1) for i in range(len(cols))]
        else:
            self.p("(")
            for i, c in enumerate(cols):
                if i:
                    self.p(",")
                self.name(c)
                self.section("insert", c)
            self.p(")")
            names = cols
        self.kw("values")
        self.p("(")
        for i in range(len(cols)):
            if i:
                self.p(",")
            self.values.append(self.literal())
        self.p(")")
        self.pairs = dict(zip(names, self.values))

    def update(self):
        self.quals = []
        self.kw("update")
        t = self.pick(*TABLES)
        self.name(t)
        self.tables.append(t)
        self.kw("set")
        for i in range(self.draw(st.integers(1, 2))):
            if i:
                self.p(",")
            self.col("update")
            self.out.append(["op", "="])
            self.literal()
        if self.chance(1):
            self.kw("where")
            self.condition()

    def delete(self):
        self.quals = []
        self.kw("delete", "from")
        t = self.pick(*TABLES)
        self.name(t)
        self.tables.append(t)
        if self.chance(1):
            self.kw("where")
            self.condition()

    def create(self):
        self.kw("create", "table")
        t = self.pick(*TABLES)
        self.name(t)
        self.tables.append(t)
        self.p("(")
        self.types = []
        for i, c in enumerate(self.some_columns()):
            if i:
                self.p(",")
            self.name(c)
            self.columns.append(c)
            ty = self.pick("int", "text", "varchar", "float", "date")
            self.out.append(["type", ty])
            self.types.append(ty)
            if ty == "varchar":
                self.p("(")
                self.out.append(["int", "20"])
                self.p(")")
            if self.chance(2):
                self.kw("not null")
        self.p(")")

    def alter(self):
        self.kw("alter", "table")
        t = self.pick(*TABLES)
        self.name(t)
        self.tables.append(t)
        self.kw("add")
        self.kw("primary", "key") if self.chance(1) else self.kw("index")
        self.p("(")
        self.name(self.pick(*COLUMNS))
        self.p(")")

    def drop(self):
        self.kw("drop", "table")
        t = self.pick(*TABLES)
        self.name(t)
        self.tables.append(t)


def style(draw, units, comments=True):
    out = [["kw" if k == "kw" else k, rawsql.spread(draw, rawsql.recase(draw, t)) if k == "kw" else t] for k, t in units if k != "noas"]
    return rawsql.joined(draw, out, comments)


KINDS = {"select": "SELECT", "insert": "INSERT", "replace": "REPLACE", "update": "UPDATE", "delete": "DELETE", "create": "CREATE TABLE",
         "alter": "ALTER TABLE", "drop": "DROP TABLE"}


@st.composite
def statements(draw):
    b = B(draw)
    kind = draw(st.sampled_from(["select"] * 5 + ["insert", "insert", "replace", "update", "delete", "create", "alter", "drop"]))
    if kind in ("insert", "replace"):
        b.into(kind)
    else:
        getattr(b, kind)()
    e = {"query_type": KINDS[kind], "tables": b.tables}
    if kind != "alter":
        e["columns"] = b.columns
    if kind in ("select", "insert", "replace", "update", "delete"):
        e["columns_dict"] = b.sections
        e["tables_aliases"] = b.taliases
        e["limit_and_offset"] = b.limit
    if kind == "select":
        e["columns_aliases_names"] = sorted(b.aliases)
        e["columns_aliases"] = b.aliases
    if kind in ("insert", "replace"):
        e["values"] = b.values
        e["values_dict"] = b.pairs
    if kind == "create":
        e["columns_type"] = b.types
    units = b.out
    ends = [["punct", ";"]] if draw(st.booleans()) else []
    return {"texts": [rawsql.text_of(style(draw, units, False)) + draw(st.sampled_from(["", ";", "\n", " ;"])),
                      draw(st.sampled_from(["", " ", "/* c */", "-- select b from c\n", "\n\t"])) + rawsql.text_of(style(draw, units + ends))],
            "expect": e}


NAMES = ["query_type", "tables", "columns", "columns_dict", "tables_aliases", "columns_aliases_names", "columns_aliases", "limit_and_offset",
         "values", "values_dict", "columns_type"]


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def run(case, note):
    from scheduler.compile.parser import Parser
    for text in case["texts"]:
        parser = Parser(text)
        for name in NAMES:
            if name not in case["expect"]:
                continue
            want = case["expect"][name]
            got = plain(getattr(parser, name))
            if name == "query_type":
                got = got.value if hasattr(got, "value") else got
            if name == "columns_aliases_names":
                got = sorted(got)
            if name == "values_dict" and got is None:
                got = {}
            if name in ("tables_aliases", "columns_aliases", "columns_dict"):
                got = got or {}
            if got != want:
                raise Violation("%s of %r is %s, not %s" % (name, text, got, want))
    note.label(case["expect"]["query_type"])
    if case["expect"].get("columns") or case["expect"].get("values"):
        note.nontrivial()



# ---- nested statements: WITH and subqueries in FROM

@st.composite
def nested(draw):
    inner = B(draw)
    inner.select(draw(st.booleans()))
    name = draw(st.sampled_from(["sub", "q1", "Inner_1", "子"]))
    kind = draw(st.sampled_from(["from", "join", "with"]))
    outer_table = draw(st.sampled_from(["outer1", "o2"]))
    out = [["kw", "select"], ["op", "*"], ["kw", "from"]]
    body = [["punct", "("]] + inner.out + [["punct", ")"]]
    alias = ([["kw", "as"]] if draw(st.booleans()) else []) + [["name", name]]
    if kind == "from":
        units = out + body + alias
        tables = inner.tables
    elif kind == "join":
        units = out + [["name", outer_table], ["kw", draw(st.sampled_from(["join", "left join", "inner join"]))]] + body + alias
        tables = [outer_table] + inner.tables
    else:
        units = [["kw", "with"], ["name", name], ["kw", "as"]] + body + out + [["name", name]]
        tables = inner.tables
    if kind == "join":
        units += [["kw", "on"], ["name", outer_table], ["dot", "."], ["name", "oid"], ["op", "="], ["name", outer_table], ["dot", "."], ["name", "pid"]]
    return {"kind": kind, "name": name, "tables": tables, "inner": rawsql.text_of(style(draw, inner.out, False)),
            "texts": [rawsql.text_of(style(draw, units, False)), rawsql.text_of(style(draw, units))],
            "aliases": inner.aliases, "columns": inner.columns}


def squeeze(text):
    """words, strings and signs, without whitespace and the quotes of names"""
    import re
    out = []
    for m in re.finditer(r"'[^']*'|`[^`]*`|\w+|\S", text):
        t = m.group()
        out.append(t if t[0] == "'" else t.strip("`").lower())
    return out


def run_nested(case, note):
    from scheduler.compile.parser import Parser
    for text in case["texts"]:
        p = Parser(text)
        if p.query_type.value != "SELECT":
            raise Violation("query_type of %r is %s" % (text, p.query_type))
        names = list(p.with_names if case["kind"] == "with" else p.subqueries_names)
        if names != [case["name"]]:
            raise Violation("the nested query of %r is named %s, not %s" % (text, names, case["name"]))
        other = list(p.subqueries_names if case["kind"] == "with" else p.with_names)
        if other:
            raise Violation("%s are other nested queries of %r" % (other, text))
        got = list(p.tables)
        if got != case["tables"]:
            raise Violation("tables of %r are %s, not %s" % (text, got, case["tables"]))
        queries = dict(p.with_queries if case["kind"] == "with" else p.subqueries)
        if list(queries) != [case["name"]] or squeeze(queries[case["name"]]) != squeeze(case["inner"]):
            raise Violation("the nested query of %r is\n%s, not\n%s" % (text, queries, case["inner"]))
        if set(p.columns_aliases_names) != set(case["aliases"]):
            raise Violation("the column aliases of %r are %s, not %s" % (text, list(p.columns_aliases_names), list(case["aliases"])))
        cols = set(c for c in p.columns if c != "*" and not c.startswith("outer1.") and not c.startswith("o2."))
        want = set(c for c in case["columns"] if c != "*")
        if cols != want:
            raise Violation("the columns of %r are %s, not %s" % (text, sorted(cols), sorted(want)))
    note.nontrivial()
    note.label(case["kind"])


# ---- everything else is refused

OTHERS = ["create view v as select a from t", "create index i on t (a)", "create database d", "create user u", "alter database d character set utf8",
          "alter user u", "alter view v as select 1", "drop database d", "drop view v", "drop index i on t", "drop user u", "truncate table t",
          "set names utf8", "use d", "show tables", "explain select a from t", "grant all on t to u", "describe t", "call p ( )", "begin",
          "commit", "rollback", "lock tables t read", "rename table t to u", "load data infile 'x' into table t", "do 1", "analyze table t",
          "merge into t", "revoke all on t from u", "start transaction", "kill 5", "handler t open", "optimize table t", "drop procedure p",
          "create trigger x", "drop trigger x", "create", "alter", "drop", "alter procedure p", "", ";", "()", "selects a from t", "insertt into t values (1)", "foo bar", "1",
          "'select'"]


@st.composite
def unsupported(draw):
    words = draw(st.sampled_from(OTHERS)).split()
    out = []
    for w in words:
        t = w if w.startswith("'") or w.startswith("`") else rawsql.recase(draw, w)
        out.append(t)
    sep = draw(st.sampled_from([" ", "  ", "\n", "\t", " /* select */ ", " -- drop table t\n"]))
    return draw(st.sampled_from(["", "", " ", "\n", "/* select */", "-- insert\n"])) + sep.join(out)


def run_unsupported(text, note):
    from scheduler.compile.parser import Parser
    try:
        got = Parser(text).query_type
    except ValueError:
        note.nontrivial()
        return
    raise Violation("%r is taken for %s" % (text, got))


@st.composite
def executed(draw):
    return {"sql": draw(unsupported())}


SUBS = [Sub("statements", statements, run, quick=3000, thorough=100000, shards=(4, 16)),
        Sub("nested", nested, run_nested, quick=1500, thorough=60000, shards=(2, 16)),
        Sub("unsupported", unsupported, run_unsupported, quick=1500, thorough=10000, shards=(1, 2))]
