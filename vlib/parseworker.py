"""A process of its own that parses statements: reads JSON lines {"d": dialect, "sql": ...}, answers JSON lines.

argv: comma-separated dialects whose parsers are built first, in that order; {"threads": [[...], ...]} parses the lists
in threads that start together.
"""
import json
import sys
import threading
import warnings


def outcome(P, item):
    fn = {"common": P.parse, "mysql": P.parse_mysql, "sqlserver": P.parse_sqlserver, "bigquery": P.parse_bigquery}
    try:
        return ["ok", fn[item["d"]](item["sql"])]
    except RecursionError:
        return ["recursion"]
    except Exception as e:
        return ["error", type(e).__name__]


def together(P, lists):
    out = [None] * len(lists)
    gate = threading.Barrier(len(lists))

    def work(i):
        gate.wait()
        out[i] = [outcome(P, x) for x in lists[i]]

    threads = [threading.Thread(target=work, args=(i,)) for i in range(len(lists))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return out


def main():
    warnings.simplefilter("ignore")
    out = sys.stdout
    sys.stdout = sys.stderr
    sys.path.insert(0, sys.argv[2])
    import sql_parsing as P
    for d in [d for d in sys.argv[1].split(",") if d]:
        outcome(P, {"d": d, "sql": "select 1"})
    for line in sys.stdin:
        req = json.loads(line)
        res = together(P, req["threads"]) if "threads" in req else outcome(P, req)
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
