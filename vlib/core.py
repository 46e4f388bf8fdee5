"""Runner shared by all checks: generation, counting, shrinking, replay, evidence.

A check module (checks/cXX.py) defines
    PROPERTY = "C01";  RULE = "...";  ASSUMPTIONS = [...]
    SUBS = [Sub(name, strategy_fn, case_fn, quick=N, thorough=N, shards=(q, t), ...)]
A *case* is plain JSON data; case_fn(case, note) raises Violation when the
property is broken.  Replaying a saved case never involves hypothesis.
"""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
SHRINK_SECONDS = 60


class Violation(AssertionError):
    pass


class CaseTimeout(BaseException):
    pass


class Note:
    """per-case observations made by case functions"""

    def __init__(self, stats):
        self.s = stats
        self.nt = False

    def nontrivial(self, flag=True):
        self.nt = self.nt or bool(flag)

    def label(self, *names):
        for n in names:
            self.s["labels"][n] = self.s["labels"].get(n, 0) + 1

    def count(self, name, n=1):
        self.s["labels"][name] = self.s["labels"].get(name, 0) + n

    def excluded(self, name):
        self.s["excluded"][name] = self.s["excluded"].get(name, 0) + 1


class Sub:
    def __init__(self, name, strategy, fn, quick=200, thorough=5000, shards=(1, 8), setup=None,
                 case_timeout=120, directed=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = {"quick": shards[0], "thorough": shards[1]}
        self.setup, self.case_timeout = setup, case_timeout
        self.directed = directed or []        # explicit seed cases, always run first (shard 0)


def jdump(x):
    return json.dumps(x, ensure_ascii=True, sort_keys=True, default=repr)


def short(x, n=600):
    s = x if isinstance(x, str) else jdump(x)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(boot.REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def exc_violation(e, what="unexpected exception"):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if f.filename.startswith(boot.REPO + "/")]
    loc = ("%s:%s" % (where[-1].filename[6:], where[-1].name)) if where else "?"
    return Violation("%s %s: %s (in %s)" % (what, type(e).__name__, short(str(e), 300), loc))


def run_case(sub, case, note):
    """run one case; Violation for property failures, other exceptions are harness errors"""
    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(sub.case_timeout)
    try:
        sub.fn(case, note)
    except Violation:
        raise
    except CaseTimeout:
        raise Violation("the code under test did not finish one case within %d s" % sub.case_timeout)
    except Exception as e:
        mod = type(e).__module__ or ""
        if mod.startswith("hypothesis"):
            raise
        if in_repo(e.__traceback__):
            v = exc_violation(e)
            raise v from e
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def load(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module("checks." + pid.lower())


def find_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise SystemExit("no sub-check %r" % name)


# --------------------------------------------------------------- worker
def new_stats():
    return {"evaluations": 0, "nontrivial": 0, "labels": {}, "excluded": {}, "samples": [], "hashes": [],
            "violation": None, "budget_hit": False, "known": []}


def worker(pid, subname, shard, tier, seed, out, budget):
    from . import boot
    boot.setup()
    mod = load(pid)
    stats = new_stats()
    try:
        if subname == "@known":
            known_worker(pid, mod, stats)
        else:
            search(find_sub(mod, subname), shard, tier, seed, stats, budget)
    except BaseException as e:
        stats["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    stats["hashes"] = sorted(set(stats["hashes"]))
    with open(out, "w") as f:
        json.dump(stats, f, default=repr)


def search(sub, shard, tier, seed, stats, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    if sub.setup:
        sub.setup()
    t0 = time.monotonic()
    hashes = set()
    state = {"fail": None, "first": None, "stop": False}

    def body(case):
        if state["stop"]:
            return
        if state["fail"] is not None and time.monotonic() - state["at"] > SHRINK_SECONDS:
            return                            # hypothesis reports this as flaky; the failure is already recorded
        if state["fail"] is None and time.monotonic() - t0 > budget:
            stats["budget_hit"] = True
            state["stop"] = True
            return
        note = Note(stats)
        if state["fail"] is None:
            stats["evaluations"] += 1
        else:
            note = Note(new_stats())
        try:
            run_case(sub, case, note)
        except Violation as v:
            if state["first"] is None:
                state["first"] = (json.loads(json.dumps(case)), str(v))
                state["at"] = time.monotonic()
            state["fail"] = (json.loads(json.dumps(case)), str(v))
            raise
        if note.nt and state["fail"] is None:
            h = hashlib.sha1(jdump(case).encode()).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                n = len(hashes)
                if n <= 2 or (n % 97 == 0 and len(stats["samples"]) < 5):
                    stats["samples"].append({"sub": sub.name, "case": short(case, 1500)})

    n = sub.n[tier]
    if shard == 0:
        for case in sub.directed:
            try:
                body(json.loads(json.dumps(case)))
            except Violation:
                break
    if state["fail"] is None and n > 0:
        st = sub.strategy()
        nshards = sub.shards[tier]
        per = max(1, -(-n // nshards))
        t = given(st)(body)
        t = settings(max_examples=per, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
                     phases=(Phase.generate, Phase.shrink),
                     suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                            HealthCheck.large_base_example])(t)
        t = hypothesis.seed(seed * 1000 + shard)(t)
        try:
            t()
        except Violation:
            pass
        except BaseException as e:
            # Flaky / FlakyFailure: the failure was observed but did not reproduce in-process
            if state["fail"] is None or "lak" not in type(e).__name__:
                raise
    stats["nontrivial"] = len(hashes)
    stats["hashes"] = list(hashes)
    if state["fail"]:
        case, msg = state["fail"]
        stats["violation"] = {"sub": sub.name, "case": case, "message": msg,
                              "first_case": state["first"][0], "first_message": state["first"][1]}


# --------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            if line.startswith("known: "):
                d = json.loads(line[7:])
                if d["property"] == pid:
                    out.append(d)
    return out


def known_worker(pid, mod, stats):
    for k in known_findings(pid):
        sub = find_sub(mod, k["sub"])
        if sub.setup:
            sub.setup()
        note = Note(new_stats())
        try:
            run_case(sub, k["case"], note)
        except Violation as v:
            ok = k["expect"] in str(v)
            stats["known"].append({"id": k["id"], "what": k["what"], "ok": ok, "msg": str(v), "sub": k["sub"],
                                   "case": k["case"], "hit": True})
        else:
            stats["known"].append({"id": k["id"], "what": k["what"], "ok": True, "hit": False})


# --------------------------------------------------------------- parent
def main(pid, argv):
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = argv[argv.index("--sub") + 1] if "--sub" in argv else None
    t0 = time.monotonic()
    from . import boot
    boot.paths()
    mod = load(pid)
    budget = getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 600)
    hard = budget + 240
    tmp = boot.scratch()
    tasks = []
    if known_findings(pid) and not only:
        tasks.append(("@known", 0))
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        for k in range(s.shards[tier]):
            tasks.append((s.name, k))
    # deal out shard 0 of every sub-check first
    tasks.sort(key=lambda t: t[1])
    limit = int(os.environ.get("VERIF_JOBS", "8"))
    running, results, errors = [], [], []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
               PYTHONPYCACHEPREFIX="/opt/vp/no-pycache", LANG="C.UTF-8", VERIF_SCRATCH=tmp)
    env.pop("PYTHONPATH", None)
    interp = getattr(mod, "INTERPRETER", PY)
    started = time.monotonic()
    qi = 0
    while qi < len(tasks) or running:
        while qi < len(tasks) and len(running) < limit:
            name, k = tasks[qi]
            qi += 1
            out = os.path.join(tmp, "res_%s_%d.json" % (name.strip("@"), k))
            log = open(out + ".log", "w")
            left = max(20, budget - (time.monotonic() - started))
            p = subprocess.Popen([interp, os.path.join(VERIF, "run.py"), pid, "--worker", name, str(k), tier,
                                  str(seed), out, str(left)], stdout=log, stderr=log, env=env,
                                 cwd=tmp, start_new_session=True)
            running.append((p, name, k, out, time.monotonic()))
        time.sleep(0.02)
        for r in list(running):
            p, name, k, out, st = r
            if p.poll() is None:
                if time.monotonic() - started > hard:
                    kill_group(p)
                    errors.append("%s/%d: worker exceeded the %d s limit" % (name, k, hard))
                    running.remove(r)
                continue
            running.remove(r)
            if not os.path.exists(out):
                errors.append("%s/%d: worker died (rc %s)\n%s" % (name, k, p.returncode,
                                                                 open(out + ".log").read()[-3000:]))
                continue
            d = json.load(open(out))
            d["sub"], d["shard"] = name, k
            if d.get("error"):
                errors.append("%s/%d: %s" % (name, k, d["error"]))
            results.append(d)
            if d.get("violation") and qi < len(tasks):
                # enough: let running shards finish, start nothing new
                qi = len(tasks)
    return report(pid, mod, tier, seed, results, errors, time.monotonic() - t0)


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    p.wait()


def report(pid, mod, tier, seed, results, errors, wall):
    labels, excluded, subs, samples, hashes = {}, {}, {}, [], set()
    ev = 0
    violations, known_lines = [], []
    budget_hit = 0
    for d in results:
        ev += d["evaluations"]
        s = subs.setdefault(d["sub"], {"evaluations": 0, "distinct_nontrivial": set()})
        s["evaluations"] += d["evaluations"]
        s["distinct_nontrivial"] |= set(d["hashes"])
        hashes |= {d["sub"] + ":" + h for h in d["hashes"]}
        budget_hit += bool(d["budget_hit"])
        for k, v in d["labels"].items():
            labels[d["sub"] + "/" + k] = labels.get(d["sub"] + "/" + k, 0) + v
        for k, v in d["excluded"].items():
            excluded[k] = excluded.get(k, 0) + v
        if sum(1 for x in samples if x["sub"] == d["sub"]) < 2:
            samples += d["samples"][:2]
        if d.get("violation"):
            violations.append(d["violation"])
        for k in d.get("known", []):
            if k["hit"] and k["ok"]:
                known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
            elif k["hit"]:
                violations.append({"sub": k["sub"], "case": k["case"], "message": "listed finding %s now fails "
                                   "differently: %s" % (k["id"], k["msg"])})
            else:
                print("note: listed finding %s no longer reproduces" % k["id"])
    subs.pop("@known", None)
    for s in subs.values():
        s["distinct_nontrivial"] = len(s["distinct_nontrivial"])
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": mod.RULE,
                     "samples": samples[:24], "per_subcheck": subs, "classes": dict(sorted(labels.items())),
                     "excluded_by_known_finding": excluded, "shards_stopped_by_time_budget": budget_hit},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for line in known_lines:
        print(line)
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s_%s.json" % (pid, v["sub"]))
        with open(rp, "w") as f:
            json.dump(dict(v, property=pid, command="/opt/venv/bin/python /verif/run.py %s --replay %s" % (pid, rp)),
                      f, indent=1, ensure_ascii=False)
        for x in violations[:3]:
            print("[%s] %s\n  case: %s" % (x["sub"], x["message"], short(x["case"], 1500)))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        for e in errors[:4]:
            print("ERROR: " + e)
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial) in %.1f s%s" % (
        pid, tier, ev, len(hashes), wall, ", %d shards hit the time budget" % budget_hit if budget_hit else ""))
    return 0


def replay(pid, path):
    from . import boot
    d = json.load(open(path))
    boot.setup()
    mod = load(pid)
    sub = find_sub(mod, d["sub"])
    if sub.setup:
        sub.setup()
    try:
        run_case(sub, d["case"], Note(new_stats()))
    except Violation as v:
        print("[%s] %s" % (sub.name, v))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay passed")
    return 0
