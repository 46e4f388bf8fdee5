"""A proxy instance over the fake backend: what a client of the HTTP service sees."""
import logging
import sys

from . import boot, fakemysql, minisql

META_DB = "eulerdb_schema"


class World:
    """fresh backend server + freshly started proxy"""

    def __init__(self, dbs=("points",), user="root", password="rootroot", store="mysql"):
        boot.setup(proxy=True)
        import yaml
        logging.disable(logging.CRITICAL)
        fakemysql.reset()
        with open(boot.REPO + "/config.yaml", encoding="utf8") as f:
            self.cfg = yaml.safe_load(f)
        self.store = store
        if store == "sqlite":
            self.cfg["meta"]["type"] = "sqlite"
            self.cfg["meta"]["sqlite"] = boot.new_sqlite_meta()
        with open("config.yaml", "w", encoding="utf8") as f:
            yaml.safe_dump(self.cfg, f)
        m = self.cfg["meta"]["mysql"]
        b = self.cfg["back_db"][self.cfg["back_db"]["type"]]
        self.server = fakemysql.register(fakemysql.FakeServer(b["host"], b["port"]))
        key = (m["host"], int(m["port"]))
        self.meta_server = fakemysql.SERVERS.get(key) or fakemysql.register(fakemysql.FakeServer(*key))
        self.meta_server.add_db(m["db"])
        self.meta_db = m["db"]
        self.meta_server.add_user(m["user"], m["passwd"])
        s = self.meta_server.session(m["db"])
        for ddl in boot.meta_ddl():
            s.execute(ddl)
        s.commit()
        if (user, password) != (m["user"], m["passwd"]):
            self.server.add_user(user, password)
            if user == m["user"]:
                # one account table per server: separate the metadata account
                raise ValueError("choose a different user")
        for d in dbs:
            self.server.add_db(d)
        self.user, self.password = user, password
        self.db = dbs[0]
        self.start()

    # -- proxy process
    def start(self):
        boot.purge()
        import scheduler.backend.execution_context as ec
        self.ec = ec

    def restart(self):
        """the proxy process ends (its connections vanish) and starts again"""
        for c in list(self.server.conns) + list(self.meta_server.conns):
            if not c.closed and not c.dead:
                c.session.rollback()
            c.closed = True
        self.start()

    def controller(self):
        import controller.rewriter as cr
        return cr

    def info(self, query=None, db=None, **kw):
        d = {"host": self.server.host, "port": self.server.port, "db": db or self.db, "user": self.user,
             "password": self.password}
        if query is not None:
            d["query"] = query
        d.update(kw)
        return d

    def query(self, sql, encrypted=None, db=None):
        """what POST /query does; returns the controller's answer"""
        info = self.info(sql, db)
        if encrypted is not None:
            info["encrypted_columns"] = encrypted
        return self.controller().ControllerDatabase(info).do_query()

    def rows(self, sql, db=None):
        r = self.query(sql, db=db)
        return [tuple(x) for x in r["result"]]

    def backend(self, db=None):
        return self.server.databases[db or self.db]

    def sent(self):
        """SQL texts the user-data server received"""
        return [x[3] for x in self.server.log if x[1] != self.meta_db]
