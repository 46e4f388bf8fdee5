"""C14: parsing is a function of the text alone."""
import atexit
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import boot, sched, sqlgen
from vlib.core import Sub, Violation, short

PROPERTY = "C14"
TECHNIQUE = ("metamorphic and stateful testing: the same statements parsed after different histories, in different orders, "
             "in threads and in other processes must give equal trees")
LEVEL_NOTE = ("The reference for a statement is its parse in another process that built the parsers of the dialects in "
              "another order and parsed other statements before.  Threads are run with a switch interval of 10 us, and under "
              "generated schedules with a switch possible at every line of the parser.")
RULE = ("at least one statement of the history was accepted (histories, threads), the text was certainly no statement (garbage), "
        "or two statements were accepted and the threads switched at least twice (schedules)")
ASSUMPTIONS = []

DIALECTS = ["common", "mysql", "sqlserver", "bigquery"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Worker:
    def __init__(self, order):
        self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "vlib", "parseworker.py"), ",".join(order),
                                   boot.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"), text=True)
        self.n = 0
        atexit.register(self.close)

    def ask(self, req):
        self.n += 1
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the parsing process died on %s" % short(json.dumps(req), 300))
        return json.loads(line)

    def close(self):
        try:
            self.p.kill()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
        except Exception:
            pass
        atexit.unregister(self.close)


WORKER = []


def worker():
    """reference process, replaced now and then by one that builds the dialects in another order"""
    if WORKER and WORKER[0].n > 150:
        WORKER.pop().close()
    if not WORKER:
        k = worker.turn = getattr(worker, "turn", os.getpid()) + 1
        order = DIALECTS[k % 4:] + DIALECTS[:k % 4]
        WORKER.append(Worker(order[:k % 3 + 2]))
    return WORKER[0]


def plain(x):
    return json.loads(json.dumps(x))


def here(item, mutate=False, kept=None):
    import sql_parsing as P
    from vlib.parseworker import outcome
    kw = {}
    if item.get("null"):
        kw["null"] = {"none": None, "text": "NULL", "dict": {"null": {}}}[item["null"]]
    if item.get("calls"):
        kw["calls"] = P.normal_op
    if kw:
        fn = {"common": P.parse, "mysql": P.parse_mysql, "sqlserver": P.parse_sqlserver,
              "bigquery": P.parse_bigquery}[item["d"]]
        try:
            fn(item["sql"], **kw)
        except Exception:
            pass
        return None
    res = outcome(P, item)
    out = plain(res)
    if mutate and res[0] == "ok":
        ruin(res[1])
    if kept is not None and res[0] == "ok":
        kept.append((item, res, plain(res)))
    return out


def ruin(tree):
    if isinstance(tree, dict):
        for v in list(tree.values()):
            ruin(v)
        tree["ruined"] = True
    elif isinstance(tree, list):
        for v in list(tree):
            ruin(v)
        tree.append("ruined")


# ------------------------------------------------------------------ texts
def good():
    prof = {"common": "sqlite-ansi", "mysql": "mysql", "sqlserver": "sqlite-ansi", "bigquery": "mysql"}
    return st.sampled_from(DIALECTS).flatmap(
        lambda d: sqlgen.statements(prof[d]).map(lambda c: {"d": d, "sql": c["sql"]}))


FEW = ["select null", "select a from t where a is null", "select true, false, null", "select * from t where a = null",
       "insert into t (a, b) values (1, null)", "update t set a = null where b is not null", "select count(*) from t",
       "select distinct a from t", "select case when a then null else null end from t", "drop table t",
       "create table t (a int not null, b varchar(20) default null)", "select a b from t", "SELECT interval 3 day",
       "select a || b from t", "select \"a\" from t", "select `a` from t", "select [a] from t", "select date '2020-01-01'",
       "select cast(a as decimal(5,2)) from t", "select a from t limit 3 offset 2", "delete from t"]


@st.composite
def garbage(draw):
    """a text that is certainly no statement"""
    item = draw(good())
    sql = item["sql"].rstrip().rstrip(";").rstrip()
    k = draw(st.sampled_from(["close", "open", "quote", "bq", "tail", "empty", "words", "comma", "cut", "two", "odd"]))
    if k == "close":
        sql += "\n)"
    elif k == "open":
        sql = "(" + sql
    elif k == "quote":
        sql += "\n'x"
    elif k == "bq":
        sql += "\n`x"
    elif k == "tail":
        sql += "\n" + draw(st.sampled_from(["where", "from", "select", "and", "union", "order by", "group by",
                                            "limit", "in (", "= 1 1", "values values"]))
    elif k == "empty":
        sql = draw(st.sampled_from(["", " ", "\n", ";", "-- x", "/* x */", "/*", "()", "(", "'x'", "1", "a", "*", ","]))
    elif k == "words":
        sql = draw(st.sampled_from(["foo", "foo bar baz", "selekt 1", "select", "insert into", "update", "delete",
                                    "drop", "create table", "alter table", "explain", "select from", "from t",
                                    "select 1 from", "select a,, b from t", "select a from t where",
                                    "select a from t where a =", "update t set", "insert into t values",
                                    "delete t where", "select a from t order", "select a from t limit x y"]))
    elif k == "comma":
        sql = "select a, from t where" + sql[:20]
    elif k == "cut":
        sql = "select a from t where s = '" + draw(st.text("abc ()`\"", max_size=10))
    elif k == "two":
        sql += ";\n" + sql
    else:
        sql = draw(st.text(alphabet=st.characters(codec="utf-8", exclude_characters="abcdefghijklmnopqrstuvwxyz"
                                                                                    "ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
                           max_size=30))
    return {"d": item["d"], "sql": sql, "garbage": k}


@st.composite
def items(draw):
    k = draw(st.integers(0, 9))
    if k < 4:
        return draw(good())
    if k < 6:
        return {"d": draw(st.sampled_from(DIALECTS)), "sql": draw(st.sampled_from(FEW))}
    if k < 8:
        return draw(garbage())
    base = draw(good()) if draw(st.booleans()) else {"d": draw(st.sampled_from(DIALECTS)),
                                                     "sql": draw(st.sampled_from(FEW))}
    if k == 8:          # the same text for another dialect
        return dict(base, d=draw(st.sampled_from(DIALECTS)))
    return dict(base, null=draw(st.sampled_from(["none", "text", "dict"])), calls=draw(st.booleans()))


# ------------------------------------------------------------------ histories
@st.composite
def histories(draw):
    return {"items": draw(st.lists(items(), min_size=2, max_size=7)), "mutate": draw(st.booleans())}


def compare(item, got, want, how):
    if got != want:
        raise Violation("%s of %s (%s)\ngives %s\nin a process of its own %s" % (
            how, item["sql"], item["d"], short(json.dumps(got), 700), short(json.dumps(want), 700)))


def run_history(case, note):
    w = worker()
    plainly = [x for x in case["items"] if not x.get("null")]
    want = [w.ask(x) for x in reversed(plainly)][::-1]
    it = iter(want)
    kept = []
    for x in case["items"]:
        got = here(x, case["mutate"], kept)
        if got is not None:
            compare(x, got, next(it), "parsing after other statements")
    # once more: the first statement again, after all the others
    if plainly:
        compare(plainly[0], here(plainly[0]), want[0], "parsing again")
    for x, tree, was in kept:
        if plain(tree) != was:
            raise Violation("the tree returned for %s (%s) was %s\nlater calls turned it into %s" % (
                x["sql"], x["d"], short(json.dumps(was), 500), short(json.dumps(plain(tree)), 500)))
    for x, r in zip(plainly, want):
        if x.get("garbage") and r[0] == "ok":
            raise Violation("%r is no statement, but %s parses it as %s" % (x["sql"], x["d"], r[1]))
        note.label(x["d"] + "/" + r[0])
    if any(r[0] == "ok" for r in want):
        note.nontrivial()


# ------------------------------------------------------------------ garbage
def run_garbage(case, note):
    got = here(case)
    if got[0] == "ok":
        raise Violation("%r (%s) is no statement, but is parsed as %s" % (case["sql"], case["garbage"], got[1]))
    after = here({"d": case["d"], "sql": "select null, a from t where a is not null"})
    want = ["ok", {"select": [{"value": {"null": {}}}, {"value": "a"}], "from": "t", "where": {"exists": "a"}}]
    if after != want:
        raise Violation("after refusing %r a simple select is parsed as %s" % (case["sql"], after))
    note.nontrivial()
    note.label(case["garbage"])


# ------------------------------------------------------------------ threads
@st.composite
def threads(draw, fresh=False):
    n = draw(st.integers(2, 4))
    return {"threads": [draw(st.lists(items().filter(lambda x: not x.get("null")), min_size=1, max_size=3 if fresh else 5))
                        for _ in range(n)], "fresh": fresh,
            "order": draw(st.permutations(DIALECTS))[:draw(st.integers(0, 2))] if fresh else []}


def run_threads(case, note):
    if case["fresh"]:
        w = Worker(case["order"])
        try:
            got = w.ask({"threads": case["threads"]})
        finally:
            w.close()
    else:
        import sql_parsing as P
        from vlib.parseworker import together
        got = plain(together(P, case["threads"]))
    ok = 0
    for xs, rs in zip(case["threads"], got):
        for x, r in zip(xs, rs):
            want = here(x)
            compare(x, r, want, "parsing in a thread")
            ok += r[0] == "ok"
    if ok > 1:
        note.nontrivial()
    note.label("threads/%d" % len(case["threads"]))


# ------------------------------------------------------------------ schedules
SCOPES = {"entry": ["sql_parsing/__init__.py", "sql_parsing/utils.py"], "sql": ["sql_parsing/"],
          "all": ["sql_parsing/", "parsing/"]}
NULLS = {"none": None, "text": "NULL", "dict": {"nothing": 1}}


@st.composite
def scheduled(draw):
    few = st.sampled_from(DIALECTS + ["mysql"]).flatmap(
        lambda d: st.sampled_from(FEW).map(lambda sql: {"d": d, "sql": sql}))
    some = st.lists(st.one_of(few, few, few, items().map(lambda x: {"d": x["d"], "sql": x["sql"]})), min_size=1, max_size=3)
    lists = [draw(some) for _ in range(draw(st.integers(2, 3)))]
    for xs in lists:
        for x in xs:
            if draw(st.integers(0, 3)) == 0:
                x["null"] = draw(st.sampled_from(sorted(NULLS)))
            if draw(st.integers(0, 2)) == 0:
                x["calls"] = True
    gap = draw(st.sampled_from([8, 40, 200, 1000]))
    return {"threads": lists, "files": draw(st.sampled_from(sorted(SCOPES))),
            "schedule": [list(x) for x in draw(st.lists(st.tuples(st.integers(1, gap), st.integers(0, 2)), min_size=2,
                                                        max_size=24))]}


def parsed(item):
    """the outcome of one call with its options"""
    import sql_parsing as P
    fn = {"common": P.parse, "mysql": P.parse_mysql, "sqlserver": P.parse_sqlserver, "bigquery": P.parse_bigquery}
    kw = {}
    if item.get("null"):
        kw["null"] = NULLS[item["null"]]
    if item.get("calls"):
        kw["calls"] = P.normal_op
    try:
        return ["ok", fn[item["d"]](item["sql"], **kw)]
    except RecursionError:
        return ["recursion"]
    except Exception as e:
        return ["error", type(e).__name__]


def tree(x):
    """a tree as JSON has it; what is no part of a tree shows as its type's name"""
    return json.loads(json.dumps(x, default=lambda o: "<%s>" % type(o).__name__))


def scheduled_setup():
    import sql_parsing as P
    for d in DIALECTS:
        parsed({"d": d, "sql": "select 1"})
    assert P
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("sql_parsing", "parsing"):
            sched.replace_locks(m)


def run_scheduled(case, note):
    want = [[tree(parsed(x)) for x in xs] for xs in case["threads"]]
    s = sched.Sched(case["schedule"], [boot.REPO + "/" + f for f in SCOPES[case["files"]]], mode="monitor", limit=4000000,
                    others=True)
    try:
        res = s.run([lambda xs=xs: [parsed(x) for x in xs] for xs in case["threads"]])
    except sched.Deadlock as e:
        raise Violation("%s, parsing %s" % (e, short(case["threads"])))
    for xs, ws, (kind, rs) in zip(case["threads"], want, res):
        if kind == "error":
            raise rs if isinstance(rs, Exception) else Violation("a thread ended with %r" % (rs,))
        for x, w, r in zip(xs, ws, rs):
            if tree(r) != w:
                raise Violation("parsing %s while other threads parse\ngives %s\nalone %s" % (
                    short(x), short(tree(r), 700), short(w, 700)))
    if s.switches >= 2 and sum(w[0] == "ok" for ws in want for w in ws) > 1:
        note.nontrivial()
    note.label("switches_%s" % (s.switches if s.switches < 3 else "many"), "files_" + case["files"])


SUBS = [Sub("history", histories, run_history, quick=250, thorough=12000, shards=(8, 16)),
        Sub("garbage", garbage, run_garbage, quick=500, thorough=20000, shards=(8, 16)),
        Sub("threads", threads, run_threads, quick=150, thorough=4000, shards=(8, 16)),
        Sub("firstuse", lambda: threads(True), run_threads, quick=32, thorough=600, shards=(8, 16), case_timeout=60),
        Sub("schedules", scheduled, run_scheduled, quick=400, thorough=12000, shards=(8, 16), setup=scheduled_setup)]
