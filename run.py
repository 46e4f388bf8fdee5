"""/opt/venv/bin/python /verif/run.py <PROPERTY> [--thorough] [--sub NAME] [--replay FILE]"""
import os
import sys

WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONUTF8": "1",
        "PYTHONPYCACHEPREFIX": "/opt/vp/no-pycache"}
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    os.environ.pop("PYTHONPATH", None)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core  # noqa: E402

if __name__ == "__main__":
    pid, rest = sys.argv[1], sys.argv[2:]
    if rest and rest[0] == "--worker":
        name, shard, tier, seed, out, budget = rest[1:7]
        core.worker(pid, name, int(shard), tier, int(seed), out, float(budget))
        sys.stdout.flush()
        os._exit(0)
    rc = core.main(pid, rest)
    sys.stdout.flush()
    sys.exit(rc)
