"""Builds an index with the programs of /repo/_build in a scratch directory,
starts the server and compares the answers of queries with expected rows.
Usage: qdemo.py case.py; the case defines TTL, QUERIES = [(sparql, rows)] and
optionally BUILD (arguments), SERVE (arguments), FMT, WORDS, DOCS, SETTINGS,
check(ask) for everything else."""
import json
import os
import runpy
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import urllib.parse
import urllib.request

B = os.path.join(os.getcwd(), "_build")


def session(case, d, env):
    procs = []
    try:
        return talk(case, d, env, procs)
    finally:
        for p in procs:
            p.kill()
            p.wait()


def talk(case, d, env, procs):
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    server = subprocess.Popen(
        [B + "/ServerMain", "-p", str(port), "-i", d + "/idx", "-m", "2"]
        + case.get("SERVE", []) + (["-t"] if "WORDS" in case else []),
        cwd=d, env=env, stdout=open(d + "/log", "w"),
        stderr=subprocess.STDOUT)
    procs.append(server)
    for _ in range(600):
        try:
            socket.create_connection(("127.0.0.1", port), 1).close()
            break
        except OSError:
            if server.poll() is not None:
                print("server died", open(d + "/log").read()[-2000:])
                return 1
            time.sleep(0.1)

    def ask(q, **params):
        params["query"] = q
        u = "http://127.0.0.1:%d/?%s" % (port,
                                         urllib.parse.urlencode(params))
        with urllib.request.urlopen(u, timeout=60) as f:
            return f.read().decode("utf-8", "replace")

    bad = 0
    for q, want in case.get("QUERIES", []):
        a = json.loads(ask(q))
        got = sorted([x if x is not None else "" for x in r]
                     for r in a.get("res", []))
        if a.get("status") != "OK" or got != sorted(want):
            bad += 1
            print("query:", q)
            print("expected %d rows: %s" % (len(want), sorted(want)[:10]))
            print("got %s %d rows: %s %s" % (a.get("status"), len(got),
                                             got[:10],
                                             a.get("exception", "")))
    if "check" in case and not case["check"](ask):
        bad += 1
    return bad


def main():
    case = runpy.run_path(sys.argv[1])
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        env = dict(os.environ, STXXLCFG=d + "/stxxl.cfg", HOME=d,
                   STXXLLOGFILE="/dev/null", STXXLERRLOGFILE="/dev/null")
        with open(d + "/stxxl.cfg", "w") as f:
            f.write("disk=%s/stxxl.tmp,16MiB,syscall delete\n" % d)
        fmt = case.get("FMT", "ttl")
        with open(d + "/in." + fmt, "wb") as f:
            t = case["TTL"]
            f.write(t if isinstance(t, bytes) else t.encode())
        args = [B + "/IndexBuilderMain", "-F", fmt, "-f", d + "/in." + fmt,
                "-i", d + "/idx"] + case.get("BUILD", [])
        if "SETTINGS" in case:
            with open(d + "/s.json", "w") as f:
                json.dump(case["SETTINGS"], f)
            args += ["-s", d + "/s.json"]
        if "WORDS" in case:
            open(d + "/words", "w").write(case["WORDS"])
            open(d + "/docs", "w").write(case["DOCS"])
            args += ["-w", d + "/words", "-d", d + "/docs"]
        r = subprocess.run(args, cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=200)
        if r.returncode != 0:
            print("index builder failed:", r.stdout[-2000:])
            return 1
        # the plans depend on hash seeds, which change from start to start
        for _ in range(case.get("STARTS", 4)):
            if session(case, d, env):
                return 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
