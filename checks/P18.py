"""Queries that exceed the memory or time limit leave nothing behind."""
import json
import random
import re
from collections import Counter

from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, ServerDied

ROW = 16          # bytes of a row with two columns


def kb(case):
    """One relation of each size; values are shared between relations."""
    rng = random.Random(case["data"])
    lines = []
    for r, n in enumerate(case["sizes"]):
        m = max(1, int(n ** case["spread"]))
        seen = set()
        while len(seen) < n:
            seen.add((rng.randrange(n), rng.randrange(m)))
        lines += ["<n%d> <r%d> <n%d> .\n" % (a, r, b) for a, b in seen]
    return "".join(lines)


def gen_query(rng, n):
    r, s = rng.randrange(n), rng.randrange(n)
    k = rng.randrange(11)
    if k == 0:
        return "SELECT ?x ?y WHERE { ?x <r%d> ?y }" % r
    if k == 1:
        return "SELECT ?x ?y ?z WHERE { ?x <r%d> ?y . ?z <r%d> ?y }" % (r, s)
    if k == 2:
        return "SELECT ?x ?y ?z WHERE { ?x <r%d> ?y . ?y <r%d> ?z }" % (r, s)
    if k == 3:
        return "SELECT ?x ?y WHERE { ?x <r%d> ?y } ORDER BY DESC(?y) ?x" % r
    if k == 4:
        return "SELECT ?y (COUNT(?x) as ?c) WHERE { ?x <r%d> ?y . " \
               "?x <r%d> ?z } GROUP BY ?y" % (r, s)
    if k == 5:
        return "SELECT ?x ?y ?z WHERE { ?x <r%d> ?y . OPTIONAL " \
               "{ ?y <r%d> ?z } }" % (r, s)
    if k == 6:
        return "SELECT ?x ?y WHERE { { ?x <r%d> ?y } UNION { ?y <r%d> ?x } }" \
            % (r, s)
    if k == 7:
        return "SELECT ?x ?y WHERE { ?x <r%d>+ ?y }" % r
    if k == 8:
        return "SELECT DISTINCT ?y WHERE { ?x <r%d> ?y . ?x <r%d> ?z }" % (
            r, s)
    if k == 9:
        return "SELECT ?x ?y WHERE { ?x <r%d> ?y . MINUS { ?x <r%d> ?z } }" \
            % (r, s)
    return "SELECT ?x ?y ?z WHERE { ?x <r%d> ?y . ?x <r%d> ?z . " \
        "FILTER (?y != ?z) }" % (r, s)


class P18(Spec):
    id = "P18"
    rule = ("a request that the limits made fail, or a request after such a "
            "one that was answered completely; identified by the data, the "
            "limits and the requests so far")
    cases = {"quick": 160, "thorough": 4000}

    def generate(self, rng, i, tier):
        # the server sorts 10000 numbers when it starts
        top = rng.choice([15010, 15011, 16000, 20000])
        n = rng.randint(4, 7)
        # some relations that just fit, or just do not
        sizes = [top - rng.choice([0, 1, 2, 2, 3]),
                 rng.choice([top + 1, top + 1, top * 3 // 2])]
        while len(sizes) < n:
            sizes.append(rng.choice([3, 40, 300, 1000, 4000]))
        extra = rng.choice([0, 0, 1, 8, 15])
        rng.shuffle(sizes)
        mem = top * ROW + extra
        steps = []
        for _ in range(rng.choice([4, 8, 16, 30])):
            k = rng.random()
            if k < 0.12:
                steps.append(["clearcache"])
            elif k < 0.2:
                steps.append(["clearcachecomplete"])
            else:
                how = {}
                k = rng.random()
                if k < 0.15:
                    how["timeout"] = rng.choice(
                        ["0", "0.000001", "0.0001", "0.001"])
                elif k < 0.3:
                    how[rng.choice(["pinresult", "pinsubtrees"])] = "true"
                steps.append(["query", gen_query(rng, n), how])
        return {"data": rng.randrange(10 ** 6), "sizes": sizes,
                "spread": rng.choice([0.6, 0.8, 0.9, 1]), "mem": mem,
                "cache": rng.choice([0, 1, mem // 4, mem, 10 * mem]),
                "entry": rng.choice([mem // 8, mem, 10 * mem]),
                "entries": rng.choice([1, 2, 5, 1000]),
                "threads": rng.choice([1, 2]), "steps": steps}

    def run(self, env, case):
        out = Outcome()
        ix = env.tools.build_index(kb(case), args=["--no-patterns"])
        ref = sv = None
        try:
            ref = ix.serve(args=["--no-patterns"])
            sv = ix.serve(args=["--no-patterns"], mem=case["mem"],
                          cache_gb=case["cache"], entry_gb=case["entry"],
                          entries=case["entries"], threads=case["threads"],
                          limits={"BYTES_PER_GB": 1})
            self.history(ref, sv, case, out)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        finally:
            for s in (ref, sv):
                if s:
                    s.stop()
            ix.close()
        return out

    def ask(self, sv, q, how=None):
        _, body = sv.request(dict({"query": q, "send": "100000"},
                                  **(how or {})))
        return json.loads(body.decode("utf-8", "surrogateescape"))

    def probe(self, sv, case, out, when, before=None):
        """Relations fit into the memory or do not, whatever was asked."""
        res = []
        for r, n in enumerate(case["sizes"]):
            sv.request({"cmd": "clearcachecomplete"})
            q = "SELECT ?x ?y WHERE { ?x <r%d> ?y }" % r
            a = self.ask(sv, q)
            out.evaluations += 1
            ok = a.get("status") == "OK"
            # what fits in between depends on the reserves of the engine
            fits = before[r] if before else (
                True if 3 * n * ROW < case["mem"] else
                False if n * ROW > case["mem"] else ok)
            res.append(ok)
            if ok != fits:
                out.fail("memory limit " + when, query=q, detail=(
                    "%d rows need %d of %d bytes: %s %s" % (
                        n, n * ROW, case["mem"], a.get("status"),
                        a.get("exception"))))
                return
            if ok and len(a["res"]) != n:
                out.fail("wrong answer " + when, query=q, detail="%d rows "
                         "instead of %d" % (len(a["res"]), n))
                return
        return res

    def history(self, ref, sv, case, out):
        before = self.probe(sv, case, out, "at the beginning")
        if out.failure:
            return
        failed = False
        answers = {}
        for j, st in enumerate(case["steps"]):
            if st[0] != "query":
                sv.request({"cmd": st[0]})
                continue
            q = st[1]
            a = self.ask(sv, q, st[2])
            out.evaluations += 1
            if q not in answers:
                e = self.ask(ref, q)
                if e.get("status") != "OK":
                    out.fail("query failed without limits", query=q,
                             detail=str(e.get("exception"))[:500])
                    return
                answers[q] = Counter(map(tuple, e["res"]))
            if a.get("status") == "OK":
                act = Counter(map(tuple, a["res"]))
                if act != answers[q]:
                    exp = answers[q]
                    out.fail("wrong answer", query=q, detail=(
                        "%s missing %s unexpected %s" % (
                            st[2], list((exp - act).items())[:5],
                            list((act - exp).items())[:5])))
                    return
                out.count("answered")
            else:
                why = str(a.get("exception"))
                if re.search("alloc|memory", why, re.I):
                    out.count("failed for lack of memory")
                elif re.search(r"\bpin", why):
                    out.count("too big for being pinned")
                elif "timeout" in st[2]:
                    out.count("failed for lack of time")
                else:
                    out.fail("unexpected error", query=q, detail=why[:500])
                    return
            if failed or a.get("status") != "OK":
                out.nontrivial.append(digest(
                    [case["data"], case["sizes"], case["mem"], case["cache"],
                     case["entry"], case["entries"], case["steps"][:j + 1]]))
                if not out.samples and failed and a.get("status") == "OK":
                    out.samples.append({"sizes": case["sizes"],
                                        "bytes": case["mem"],
                                        "requests": case["steps"][:j + 1]})
            failed |= a.get("status") != "OK"
        self.probe(sv, case, out, "after the requests", before)

    def shrink(self, case, fail):
        for st in ddmin_lists(case["steps"]):
            yield dict(case, steps=st)
        if case["threads"] > 1:
            yield dict(case, threads=1)
        for j, st in enumerate(case["steps"]):
            if len(st) > 2 and st[2]:
                yield dict(case, steps=case["steps"][:j] + [
                    [st[0], st[1], {}]] + case["steps"][j + 1:])


SPEC = P18()
