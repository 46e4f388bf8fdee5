"""C22: a request only ever runs on its own server, database and account."""
import threading

from hypothesis import strategies as st

from vlib import fakemysql, gen
from vlib.core import Sub, Violation, short
from vlib.proxy import World

PROPERTY = "C22"
TECHNIQUE = ("stateful property-based testing: generated histories of requests against several simulated servers, every "
             "logged statement compared with the request it belongs to, answers with a model per database")
LEVEL_NOTE = ("The simulated servers record account, password and database of the connection every statement arrives on. "
              "Table metadata is kept per database name, so only the server that holds a database name's table has to answer.")
RULE = "requests for at least two different targets were executed, or a request with a wrong target or account was refused"
ASSUMPTIONS = ["a database name is used for encrypted tables on one server only (the metadata does not know servers)",
               "passwords do not change while the proxy runs"]

SERVERS = [["10.0.0.1", 3306], ["10.0.0.1", 3307], ["10.0.0.2", 3306], ["10.0.0.2", 33061], ["10.0.0.11", 3306]]
DBS = ["points", "orders", "points2"]
USERS = ["app", "ap", "root2"]
PWS = ["secret", "Secret", "", "pp", "other"]


@st.composite
def histories(draw):
    n = draw(st.integers(2, 4))
    servers = draw(st.permutations(SERVERS))[:n]
    # every server has some databases and accounts [user, password, databases or null]
    conf = []
    for s in servers:
        acc = {}
        for u in draw(st.lists(st.sampled_from(USERS), min_size=1, max_size=3, unique=True)):
            acc[u] = [draw(st.sampled_from(PWS[:3] if draw(st.booleans()) else PWS)),
                      draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(DBS), min_size=1, max_size=2, unique=True)))]
        conf.append({"at": s, "dbs": draw(st.lists(st.sampled_from(DBS), min_size=1, max_size=3, unique=True)), "users": acc})
    good = [[i, d, u, c["users"][u][0]] for i, c in enumerate(conf) for d in c["dbs"] for u in sorted(c["users"])
            if c["users"][u][1] is None or d in c["users"][u][1]]
    owners = {}
    for i, d, u, p in (draw(st.permutations(good)) if good else []):
        owners.setdefault(d, i)
    ops = []
    for _ in range(draw(st.integers(3, 14))):
        k = draw(st.sampled_from(["req"] * 8 + ["kill"]))
        if k == "kill":
            ops.append({"op": "kill", "server": draw(st.integers(0, n - 1))})
            continue
        own = [g for g in good if owners[g[1]] == g[0]]
        target = list(draw(st.sampled_from(own if own and draw(st.integers(0, 3)) else good))) if good else \
            [0, "points", "app", "secret"]
        bad = draw(st.sampled_from([None] * 5 + ["pw", "user", "db", "server", "pw"]))
        if bad == "pw":
            target[3] = draw(st.sampled_from(PWS))
        elif bad == "user":
            target[2] = draw(st.sampled_from(USERS))
        elif bad == "db":
            target[1] = draw(st.sampled_from(DBS))
        elif bad == "server":
            target[0] = draw(st.integers(0, n - 1))
        ops.append({"op": "req", "target": target, "kind": draw(st.sampled_from(["insert", "insert", "select", "select", "sum",
                                                                                 "update"])),
                    "port": draw(st.sampled_from(["int", "str"])), "v": draw(st.integers(0, 5))})
    return {"conf": conf, "owners": owners, "ops": ops, "threads": draw(st.sampled_from([0, 0, 0, 2, 3]))}


def schema(db):
    k = DBS.index(db)
    cols = [{"name": "id", "type": ["int"], "enc": None},
            {"name": "v", "type": ["int"], "enc": {"key": "key of " + db, "fuzzy": False, "arithmetic": True,
                                                   "homomorphic_key": [787659527, 1023624989]}},
            {"name": "s", "type": ["varchar", 40], "enc": {"key": "key of " + db, "fuzzy": False}}]
    return {"table": "t", "cols": cols[:1] + (cols[1:] if k % 2 else cols[:0:-1])}


class Site:
    def __init__(self, case):
        self.case = case
        self.w = World(dbs=("unused",), user="nobody", password="nothing")
        self.servers = []
        for c in case["conf"]:
            s = fakemysql.register(fakemysql.FakeServer(*c["at"]))
            s.users.clear()
            for d in c["dbs"]:
                s.add_db(d)
            for u, (pw, dbs) in c["users"].items():
                s.add_user(u, pw, dbs)
            self.servers.append(s)
        self.model = {}
        self.ids = {}
        for d, i in sorted(case["owners"].items()):
            u = next(u for u, (pw, dbs) in sorted(case["conf"][i]["users"].items()) if dbs is None or d in dbs)
            s = schema(d)
            self.request([i, d, u, case["conf"][i]["users"][u][0]], gen.create_sql(s), gen.encrypted_columns(s))
            self.model[d] = []
        self.seen = [len(s.log) for s in self.servers]
        self.used = set()

    def info(self, target, sql, port="int"):
        i, d, u, pw = target
        host, p = self.case["conf"][i]["at"]
        return {"host": host, "port": p if port == "int" else str(p), "db": d, "user": u, "password": pw, "query": sql}

    def request(self, target, sql, enc=None, port="int"):
        info = self.info(target, sql, port)
        if enc is not None:
            info["encrypted_columns"] = enc
        return [tuple(r) for r in self.w.controller().ControllerDatabase(info).do_query()["result"]]

    def allowed(self, target):
        i, d, u, pw = target
        c = self.case["conf"][i]
        return d in c["dbs"] and u in c["users"] and c["users"][u][0] == pw and \
            (c["users"][u][1] is None or d in c["users"][u][1])

    def check_log(self, targets, what):
        """the statements logged since the last call arrived on connections of one of the targets"""
        for k, s in enumerate(self.servers):
            for cid, db, user, sql in s.log[self.seen[k]:]:
                conn = next(c for c in s.conns if c.id == cid)
                pw = next((conn.kw[x] for x in ("password", "passwd") if conn.kw.get(x) is not None), "")
                if [k, db, user, pw] not in targets:
                    raise Violation("%s: a statement was executed on server %s, database %s as %s/%s: %s" % (
                        what, self.case["conf"][k]["at"], db, user, pw, short(sql, 200)))
                self.used.add((k, db, user, pw))
            self.seen[k] = len(s.log)


def sql_of(kind, v, n):
    if kind == "insert":
        return "INSERT INTO t (id, v, s) VALUES (%d, %d, 'row %d')" % (n, v, n)
    if kind == "update":
        return "UPDATE t SET v = %d WHERE s = 'row %d'" % (v, n - 1)
    if kind == "sum":
        return "SELECT SUM(v) FROM t WHERE v >= %d" % v
    return "SELECT id, v, s FROM t WHERE v <= %d" % v


def expected(rows, kind, v):
    if kind == "sum":
        have = [r[1] for r in rows if r[1] >= v]
        return [(sum(have) if have else None,)]
    return sorted(r for r in rows if r[1] <= v)


def run(case, note):
    site = Site(case)
    n = 0
    refused = 0
    for o in case["ops"]:
        if o["op"] == "kill":
            site.servers[o["server"]].kill_all()
            continue
        n += 1
        t = o["target"]
        sql = sql_of(o["kind"], o["v"], n)
        what = "request %s for %s, database %s as %s/%s" % (sql, case["conf"][t[0]]["at"], t[1], t[2], t[3])
        try:
            got, err = site.request(t, sql, port=o["port"]), None
        except Exception as e:
            got, err = None, e
        site.check_log([t] if site.allowed(t) else [], what)
        if not site.allowed(t):
            if err is None:
                raise Violation("%s: answered %s, but this account may not use this database" % (what, short(got)))
            refused += 1
            continue
        if case["owners"].get(t[1]) != t[0]:
            note.label("no table there")
            continue
        if err is not None:
            raise Violation("%s: failed with %s: %s" % (what, type(err).__name__, short(str(err), 300)))
        rows = site.model[t[1]]
        if o["kind"] == "insert":
            rows.append((n, o["v"], "row %d" % n))
        elif o["kind"] == "update":
            site.model[t[1]] = [(r[0], o["v"], r[2]) if r[2] == "row %d" % (n - 1) else r for r in rows]
        else:
            want = expected(rows, o["kind"], o["v"])
            if sorted(got) != want:
                raise Violation("%s: answered %s, the rows of this database give %s" % (what, short(sorted(got)), short(want)))
    if case["threads"]:
        together(case, site, note)
    if len(site.used) > 1 or refused:
        note.nontrivial()
    note.label("targets_%d" % min(4, len(site.used)), "refused" if refused else "none refused")


def together(case, site, note):
    """the same requests (reading only) at once from several threads"""
    reqs = [o for o in case["ops"] if o["op"] == "req" and case["owners"].get(o["target"][1]) == o["target"][0]
            and site.allowed(o["target"]) and o["kind"] in ("select", "insert")][:4]
    if not reqs:
        return
    out = []

    def client(o):
        sql = sql_of("select", o["v"], 0)
        try:
            got = sorted(site.request(o["target"], sql, port=o["port"]))
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, e)
        out.append((o, sql, got))
    ts = [threading.Thread(target=client, args=(o,)) for o in reqs for _ in range(case["threads"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    site.check_log([o["target"] for o in reqs], "concurrent requests")
    for o, sql, got in out:
        want = expected(site.model[o["target"][1]], "select", o["v"])
        if got != want:
            raise Violation("concurrently, %s on database %s answered %s instead of %s" % (sql, o["target"][1], short(got),
                                                                                         short(want)))
    note.label("concurrent")


SUBS = [Sub("routing", histories, run, quick=400, thorough=10000, shards=(8, 16))]
