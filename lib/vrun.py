"""Driver: generates cases, runs them in parallel, shrinks and reports."""
import argparse
import collections
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import socket
import sys
import time
import traceback

import vbuild
import vserver

VERIF = vbuild.VERIF
NPROC = min(8, os.cpu_count() or 8)


class Env:
    """What a case needs in order to run."""

    def __init__(self, bdirs, port_base):
        self.bdirs = bdirs
        self.scratch = vserver.Scratch()
        vserver.PORTS.configure(port_base)
        self.tools = vserver.Tools(bdirs["main"], self.scratch) \
            if "main" in bdirs else None

    def variant(self, name):
        return vserver.Tools(self.bdirs[name], self.scratch)

    def close(self):
        self.scratch.close()


class Outcome:
    """Result of one case.

    failure: None or dict with keys kind, detail (and what the shrinker may
    use, e.g. query index).  nontrivial: list of strings; each distinct string
    counts once.  stats: counters that are summed up.
    """

    def __init__(self):
        self.failure = None
        self.all = []
        self.evaluations = 0
        self.nontrivial = []
        self.stats = {}
        self.samples = []

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def fail(self, kind, **detail):
        f = dict(kind=kind, **detail)
        if len(self.all) < 40:
            self.all.append(f)
        if self.failure is None:
            self.failure = f
        return self


class Spec:
    """One property; subclasses implement the hooks."""
    id = None
    rule = ""
    targets = {"main": ["IndexBuilderMain", "ServerMain"]}
    cases = {"quick": 100, "thorough": 1000}
    time_cap = {"quick": 150, "thorough": 3000}
    parallel = NPROC
    assumptions = []
    level = "exploration"
    replays = 6          # attempts to reproduce a failure
    need = 3             # reproductions required
    hang = 180           # seconds after which a case counts as stuck

    def generate(self, rng, i, tier):
        raise NotImplementedError

    def run(self, env, case):
        raise NotImplementedError

    def shrink(self, case, failure):
        """Yields smaller candidate cases."""
        return []

    def focus(self, case, failure):
        """A case that repeats what failed many times, or None."""
        return None

    def known_findings(self):
        return load_known(self.id)


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid
                and k["status"] == "open"]


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


_spec = None
_env = None


def _serve(spec, bdirs, base, conn):
    """Main loop of a worker."""
    global _spec, _env
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    vserver.die_with_parent()
    _spec = spec
    _env = Env(bdirs, base)

    def bye(*_):
        vserver.stop_all()
        _env.close()
        os._exit(0)
    signal.signal(signal.SIGTERM, bye)
    while True:
        try:
            job = conn.recv()
        except (EOFError, OSError):
            bye()
        conn.send(_work(job))


class Worker:
    """A forked process that runs one case at a time."""

    def __init__(self, make, n):
        self.make, self.n = make, n
        self.start()

    def start(self):
        self.conn, theirs = multiprocessing.Pipe()
        self.proc = self.make(self.n, theirs)
        self.proc.start()
        theirs.close()
        self.job = None

    def give(self, job):
        self.job, self.since = job, time.time()
        self.conn.send(job)

    def stop(self, patience=5):
        self.proc.terminate()
        self.proc.join(patience)
        if self.proc.is_alive():
            self.proc.kill()
            self.proc.join(10)
        self.conn.close()


_locks = []


def port_range():
    """The number of a port range that no other run on this machine has."""
    for k in range(10):
        r = (os.getpid() + k) % 10
        s = socket.socket(socket.AF_UNIX)
        try:
            s.bind("\0verif-ports-%d" % r)
        except OSError:
            s.close()
            continue
        _locks.append(s)
        return r
    return os.getpid() % 10


def port_base(r, n):
    return 10000 + r * 2200 + (n % 11) * 200


def _work(arg):
    seed, tier, i = arg
    t0 = time.time()
    try:
        case = _spec.generate(make_rng(seed, _spec.id, i), i, tier)
        t1 = time.time()
        out = _spec.run(_env, case)
        out.stats["seconds generating"] = t1 - t0
        out.stats["seconds running"] = time.time() - t1
        res = (i, out.failure, out.evaluations, out.nontrivial, out.stats,
               out.samples, case if out.failure else None, None,
               time.time() - t0, out.all)
    except Exception:
        res = (i, None, 0, [], {}, [], None, traceback.format_exc(),
               time.time() - t0, [])
    return res


def make_rng(seed, pid, i):
    return random.Random("%s:%s:%s" % (seed, pid, i))


def run_check(spec, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--show", type=int, help="print the case with this index")
    ap.add_argument("--survey", action="store_true",
                    help="run everything, print a digest of all failures")
    a = ap.parse_args(argv)
    a.keep_going |= a.survey
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    if a.show is not None:
        print(json.dumps(spec.generate(make_rng(a.seed, spec.id, a.show),
                                       a.show, a.tier), indent=1))
        return 0
    try:
        bdirs = {v: vbuild.build(t, v) for v, t in spec.targets.items()}
    except vbuild.BuildError as e:
        print(e, file=sys.stderr)
        return 2
    build_s = time.time() - t0
    if a.replay:
        return do_replay(spec, bdirs, a.replay)
    return do_search(spec, bdirs, a, t0, build_s)


def do_replay(spec, bdirs, path):
    with open(path) as f:
        rep = json.load(f)
    env = Env(bdirs, port_base(port_range(), 9))
    try:
        for _ in range(spec.replays):
            out = spec.run(env, rep["case"])
            if out.failure:
                print(json.dumps(out.failure, indent=1))
                print("VIOLATION property=%s replay=%s" % (spec.id, path))
                return 1
    finally:
        env.close()
    print("replay holds")
    return 0


def do_search(spec, bdirs, a, t0, build_s):
    n = a.cases or spec.cases[a.tier]
    ts = time.time()
    cap = ts + spec.time_cap[a.tier]
    ctx = multiprocessing.get_context("fork")
    ports = port_range()

    def make(k, conn):
        return ctx.Process(target=_serve, daemon=True, args=(
            spec, bdirs, port_base(ports, k), conn))

    workers = [Worker(make, k) for k in range(min(spec.parallel, n))]
    evaluations = 0
    nontrivial = set()
    stats, samples, failures, errors = {}, [], [], []
    allfails = []
    done = 0
    capped = False
    slow = 0.0
    todo = collections.deque((i, 0) for i in range(n))
    try:
        while True:
            if todo and time.time() > cap:
                capped = True
                todo.clear()
            for w in workers:
                if w.job is None and todo:
                    w.attempt = todo[0][1]
                    w.give((a.seed, a.tier, todo.popleft()[0]))
            busy = {w.conn: w for w in workers if w.job is not None}
            if not busy:
                break
            ready = multiprocessing.connection.wait(list(busy), 0.5)
            for w in busy.values():
                if w.conn in ready or time.time() < w.since + spec.hang:
                    continue
                # stuck (or an overloaded machine): try the case once more
                idx = w.job[2]
                if w.attempt:
                    errors.append("case %d hangs" % idx)
                else:
                    todo.append((idx, 1))
                w.stop()
                w.start()
            for c in ready:
                w = busy[c]
                idx = w.job[2]
                try:
                    (_, fail, ev, nt, st, sm, case, err, dt, every) = c.recv()
                    w.job = None
                except (EOFError, OSError):
                    errors.append("worker died in case %d" % idx)
                    w.stop()
                    w.start()
                    continue
                done += 1
                evaluations += ev
                nontrivial.update(nt)
                slow = max(slow, dt)
                for k, v in st.items():
                    stats[k] = stats.get(k, 0) + v
                if len(samples) < 6:
                    samples += sm[:1]
                if err:
                    errors.append("case %d: %s" % (idx, err))
                if fail:
                    failures.append((idx, case, fail))
                    allfails += [(idx, f) for f in every]
            if errors:
                todo.clear()
            if failures and not a.keep_going:
                break
        search_s = time.time() - ts
    finally:
        for w in workers:
            w.proc.terminate()
        for w in workers:
            w.stop()
        vserver.remove_leftovers()
    if errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
    if a.survey:
        return survey(allfails, evaluations, stats)
    env = Env(bdirs, port_base(ports, 9))
    violations = []
    unreproduced = []
    kf_lines = []
    rc = 0
    try:
        for idx, case, fail in failures[:20 if a.keep_going else 3]:
            print("case %d fails: %s" % (idx, json.dumps(fail)[:3000]))
            v = confirm(spec, env, idx, case, fail, a)
            if v:
                violations.append(v)
                if not a.keep_going:
                    break
            else:
                unreproduced.append((idx, fail))
        for k in spec.known_findings():
            out = spec.run(env, k["case"])
            if out.failure:
                kf_lines.append("KNOWN-FINDING: property=%s %s" %
                                (spec.id, k["what"]))
    finally:
        env.close()
    for line in kf_lines:
        print(line)
    wall = time.time() - t0
    ev = {
        "property": spec.id, "tier": a.tier, "seed": a.seed,
        "level": spec.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": spec.rule,
            "samples": samples[:6],
            "cases_run": done, "cases_planned": n,
            "stopped_by_time_cap": capped,
            "counters": {k: round(v, 1) for k, v in sorted(stats.items())},
            "build_s": round(build_s, 1),
            "search_s": round(search_s, 1),
            "slowest_case_s": round(slow, 2),
        },
        "wall_s": round(wall, 2),
        "assumptions": spec.assumptions,
        "violations": len(violations),
        "violation_details": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", spec.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d evaluations, %d distinct non-trivial, %.1fs "
          "(build %.1fs)%s" % (spec.id, done, evaluations, len(nontrivial),
                               wall, build_s, " CAPPED" if capped else ""))
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (spec.id, v["replay"]))
        return 1
    if errors:
        return 2
    if unreproduced:
        print("failures that did not reproduce: %s" %
              json.dumps(unreproduced)[:2000], file=sys.stderr)
        return 2
    if done == 0 or evaluations == 0:
        return 2
    return rc


def survey(allfails, evaluations, stats):
    import re
    groups = {}
    for idx, f in allfails:
        d = re.sub(r"[0-9]+", "#", str(f.get("detail")))[:110]
        groups.setdefault((f["kind"], d), []).append((idx, f))
    for k, v in sorted(groups.items(), key=lambda x: -len(x[1]))[:40]:
        print("%5d  %s | %s" % (len(v), k[0], k[1]))
        v.sort(key=lambda x: len(str(x[1].get("sparql"))))
        for idx, f in v[:3]:
            print("       case %d: %s\n            %s" % (
                idx, str(f.get("sparql", ""))[:700],
                str(f.get("detail"))[:400]))
    print("%d failures in %d evaluations" % (len(allfails), evaluations))
    print(dict(sorted(stats.items())))
    return 0


def fails(spec, env, case, tries=1):
    for _ in range(tries):
        out = spec.run(env, case)
        if out.failure:
            return out.failure
    return None


def confirm(spec, env, idx, case, fail, a):
    """Reproduces, shrinks and writes the replay file."""
    seen = 0
    tries = 0
    last = fail
    while seen < spec.need and tries < spec.replays * spec.need:
        tries += 1
        f = fails(spec, env, case)
        if f:
            seen += 1
            last = f
        elif tries >= spec.replays and seen == 0:
            break
    reliable = seen == tries
    again = None if reliable else spec.focus(case, last)
    if again is not None and all(fails(spec, env, again)
                                 for _ in range(spec.need)):
        case, seen, reliable = again, spec.need, True
    if seen == 0:
        return None
    best, bestfail = case, last
    if not a.no_shrink:
        best, bestfail = shrink(spec, env, case, last, 1 if reliable else 4,
                                90 if a.tier == "quick" else 300)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s.json" % (spec.id, digest(best)))
    with open(path, "w") as f:
        json.dump({"property": spec.id, "seed": a.seed, "case_index": idx,
                   "failure": bestfail, "case": best}, f, indent=1)
    print(json.dumps(bestfail, indent=1)[:4000])
    return {"replay": path, "kind": bestfail.get("kind"),
            "reproduced": "%d of %d" % (seen, tries)}


def shrink(spec, env, case, fail, tries, budget):
    end = time.time() + budget
    kindof = fail["kind"]
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in spec.shrink(case, fail):
            if time.time() > end:
                break
            try:
                f = fails(spec, env, cand, tries)
            except Exception:
                continue
            if f and f["kind"] == kindof:
                case, fail = cand, f
                improved = True
                break
    return case, fail


def ddmin_lists(xs):
    """Candidate sub-lists, big cuts first."""
    n = len(xs)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield xs[:i] + xs[i + k:]
        k //= 2
