"""Make /repo importable in a scratch working directory with a fake backend.

Every check runs in a private temporary directory (the code under test writes
euler_db.log and reads config.yaml from the working directory)."""
import atexit
import os
import re
import shutil
import sys
import tempfile
import types

REPO = os.environ.get("VERIF_REPO", "/repo")     # another tree only while developing checks
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SCRATCH = None


def paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if SITE not in sys.path:
        sys.path.append(SITE)
    if SCRATCH is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/opt/vp/no-pycache"


def scratch():
    """create (once) and enter a private working directory"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="verif_", dir=os.environ.get("VERIF_SCRATCH"))
        owner = os.getpid()

        def clean(path=SCRATCH):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
        # a private cache of compiled modules: the proxy is started over and over
        sys.pycache_prefix = os.path.join(SCRATCH, "pycache")
        sys.dont_write_bytecode = False
        os.chdir(SCRATCH)
        shutil.copy(os.path.join(REPO, "config.yaml"), os.path.join(SCRATCH, "config.yaml"))
    return SCRATCH


def stub_pandas():
    """pandas is not installed here; the repository uses only read_csv, by chunks and without a header line."""
    if "pandas" in sys.modules:
        return
    import csv
    import numpy as np
    m = types.ModuleType("pandas")
    m.CHUNK = None      # set by a check: a smaller chunk than asked for
    NA = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA",
          "NULL", "NaN", "n/a", "nan", "null"}

    class Frame:
        def __init__(self, rows, header):
            self.rows = rows
            self.columns = header
            self.values = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
            for i, r in enumerate(rows):
                for j, v in enumerate(r):
                    self.values[i, j] = v

        def __len__(self):
            return len(self.rows)

        @property
        def shape(self):
            return self.values.shape

        def itertuples(self, index=True, name=None):
            for i, r in enumerate(self.rows):
                yield ((i,) if index else ()) + tuple(r)

    def conv(col, dtype, na):
        """pandas' type inference: a column of ints is int, of numbers is float, else object"""
        nan = float("nan")
        if dtype in (str, "str", object, "object"):
            return [nan if x in na else x for x in col]
        try:
            return [int(x) for x in col]
        except ValueError:
            pass
        try:
            return [nan if x in na else float(x) for x in col]
        except ValueError:
            return [nan if x in na else x for x in col]

    def read_csv(path, sep=",", delimiter=None, chunksize=None, header="infer", names=None, dtype=None, keep_default_na=True,
                 na_filter=True, na_values=None, encoding="utf8", skiprows=0, nrows=None, skip_blank_lines=True,
                 low_memory=True, iterator=False, index_col=None, engine=None):
        with open(path, newline="", encoding=encoding) as f:
            rows = [r for r in csv.reader(f, delimiter=delimiter or sep) if r]
        rows = rows[skiprows:]
        head = names
        if header is not None and (names is None or header != "infer"):
            head, rows = rows[0], rows[1:]
        rows = rows[:nrows]
        na = (NA if keep_default_na else set()) | set(na_values or ()) if na_filter else set()
        size = chunksize or max(1, len(rows))
        if m.CHUNK:
            size = min(size, m.CHUNK)

        def gen():
            for i in range(0, len(rows), size):
                part = rows[i:i + size]
                width = max(map(len, part))
                part = [r + [float("nan")] * (width - len(r)) for r in part]
                cols = [conv(c, dtype, na) for c in zip(*part)]
                yield Frame([list(r) for r in zip(*cols)], head)
        if chunksize or iterator:
            return gen()
        return next(gen(), Frame([], head))

    m.read_csv = read_csv
    sys.modules["pandas"] = m


def meta_ddl():
    """the DDL of the metadata tables as shipped in data/schema-mysql.sql"""
    text = open(os.path.join(REPO, "data/schema-mysql.sql"), encoding="utf8").read()
    out = []
    for t in ("p_datasource", "p_db_meta"):
        m = re.search(r"CREATE\s+TABLE\s+IF\s+NOT\s+EXISTS\s+%s\s*\((.*?)\)\s*;" % t, text, re.S | re.I)
        if not m:
            raise RuntimeError("no DDL for %s in data/schema-mysql.sql" % t)
        out.append("CREATE TABLE IF NOT EXISTS %s (%s)" % (t, m.group(1)))
    return out


def new_sqlite_meta():
    """an empty SQLite metadata store made from the shipped schema"""
    import sqlite3
    path = os.path.join(SCRATCH, "meta_%d.db" % os.getpid())
    if os.path.exists(path):
        os.remove(path)
    c = sqlite3.connect(path)
    with open(os.path.join(REPO, "data/schema-sqlite.sql"), encoding="utf8") as f:
        c.executescript(f.read())
    c.commit()
    c.close()
    return path


def purge(prefixes=("scheduler", "controller", "handler", "service")):
    """forget the loaded modules: the next import is a fresh process start for the proxy"""
    for n in list(sys.modules):
        if n.split(".")[0] in prefixes:
            del sys.modules[n]


def setup(proxy=False):
    paths()
    scratch()
    if proxy:
        stub_pandas()
        from . import fakemysql
        fakemysql.install()


def fresh(name, prefix):
    """a private copy of module `name`, with nothing under `prefix` remembering earlier calls"""
    import importlib
    mine = {k: sys.modules.pop(k) for k in list(sys.modules) if k == prefix or k.startswith(prefix + ".")}
    try:
        return importlib.import_module(name)
    finally:
        for k in list(sys.modules):
            if k == prefix or k.startswith(prefix + "."):
                del sys.modules[k]
        sys.modules.update(mine)
        for k, m in mine.items():           # the import set the parents' attributes to the copies
            if "." in k and k.rpartition(".")[0] in sys.modules:
                setattr(sys.modules[k.rpartition(".")[0]], k.rpartition(".")[2], m)
