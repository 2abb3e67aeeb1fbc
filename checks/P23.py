import vgen
import vpool
from P07 import P07
from vmodel import (KB, eval_query, is_var, project, render_query,
                    to_turtle)
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied


def parts(node):
    """The node and everything below it."""
    yield node
    for c in node["children"]:
        yield from parts(c)


def outline(node):
    return [node["description"], node["result_rows"], node["result_cols"],
            node["column_names"], [outline(c) for c in node["children"]]]


def scan(text):
    """Subject, predicate and object of a scan, as far as they are plain."""
    if not text.startswith("IndexScan "):
        return None
    t = text[len("IndexScan "):].split(" ")
    if len(t) != 3 or is_var(t[1]) or not t[1].startswith("<"):
        return None
    if not all(is_var(x) or x.startswith("<") and x.endswith(">") for x in t):
        return None
    return t if t[0] != t[2] else None


class P23(Spec):
    id = "P23"
    rule = ("a report of at least two operations, one of which has rows; "
            "identified by query text, number of triples and whether it was "
            "asked before")
    cases = {"quick": 700, "thorough": 14000}

    def generate(self, rng, i, tier):
        has = i % 6 == 5
        if has:
            sub = P07().generate(rng, i, tier)
            triples, queries = sub["triples"], sub["queries"][:8]
        else:
            triples = vpool.mixed_kb(rng)
            queries = vpool.pool(rng, triples, rng.choice([4, 8, 12]))
        steps = []
        for _ in range(rng.randint(6, 24)):
            k = rng.random()
            if k < 0.9 and queries:
                steps.append(rng.randrange(len(queries)))
                if rng.random() < 0.3:
                    steps.append(steps[-1])
            else:
                steps.append(vgen.pick(rng, ["clearcache",
                                             "clearcachecomplete"]))
        return {"triples": triples, "queries": queries, "steps": steps,
                "has": has, "send": rng.choice([0, 2, 100000])}

    def run(self, env, case):
        out = Outcome()
        try:
            ix = env.tools.build_index(to_turtle(case["triples"]))
        except IndexFailed as e:
            return out.fail("index build failed", detail=e.out[-1500:])
        sv = None
        try:
            sv = ix.serve()
            self.history(sv, out, case)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def history(self, sv, out, case):
        kb = KB(case["triples"], has=case.get("has"))
        fresh = True
        seen = set()
        ref = {}
        for n, what in enumerate(case["steps"]):
            if not isinstance(what, int):
                sv.request([("cmd", what)])
                fresh = True
                seen = set()
                continue
            if what >= len(case["queries"]):
                continue
            q = case["queries"][what]
            text = render_query(q)
            if what not in ref:
                rows = P07().reference(kb, q, case) if case.get("has") \
                    else eval_query(kb, q)
                rows = project(rows, q["select"])
                ref[what] = len(set(rows) if q.get("distinct") else rows)
            a = sv.query(text, clear=False, send=case["send"])
            out.evaluations += 1
            if a.get("status") != "OK":
                out.fail("error status", step=n, sparql=text,
                         detail=str(a.get("exception"))[:800])
                return
            msg = self.judge(out, kb, q, ref[what], a, fresh)
            fresh = False
            if msg:
                out.fail(msg[0], step=n, sparql=text, detail=msg[1][:1200])
                return
            r = a["runtimeInformation"]
            if r["children"] and any(x["result_rows"] for x in parts(r)):
                out.nontrivial.append(digest([text, len(case["triples"]),
                                              text in seen]))
                if len(out.samples) < 1:
                    out.samples.append({"query": text, "report": outline(r)})
            seen.add(text)

    def judge(self, out, kb, q, size, a, fresh):
        r = a["runtimeInformation"]
        if r["result_rows"] != a["resultsize"]:
            return "size of the answer", "%d rows reported, %d counted" % (
                r["result_rows"], a["resultsize"])
        if r["result_rows"] != size:
            return "number of rows", "%d reported, reference has %d" % (
                r["result_rows"], size)
        names = [x if isinstance(x, str) else x[4] for x in q["select"]]
        bound = [x for x in names if a["res"] and any(
            row[names.index(x)] not in (None, "") for row in a["res"])]
        if not set(bound) <= set(r["column_names"]):
            return "columns", "%s not among %s" % (bound, r["column_names"])
        if fresh and r["children"] and r["was_cached"]:
            return "taken from an empty cache", str(outline(r))
        for x in parts(r):
            kids = [c["result_rows"] for c in x["children"]]
            rows, d = x["result_rows"], x["description"]
            info = "%s: %d rows from %s; %s" % (d, rows, kids, outline(r))
            if len(x["column_names"]) > x["result_cols"]:
                return "number of columns", info
            kind = d.split(" ")[0]
            if kind in ("Sort", "OrderBy") and kids and rows != kids[0]:
                return "rows of a sorted result", info
            if kind in ("Filter", "Distinct", "Minus") and kids and \
                    rows > kids[0]:
                return "more rows than possible", info
            if kind == "Union" and len(kids) == 2 and rows != sum(kids):
                return "rows of a union", info
            if kind == "Join" and len(kids) == 2 and rows > kids[0] * kids[1]:
                return "more rows than possible", info
            if kind == "OptionalJoin" and len(kids) == 2 and not (
                    min(kids) <= rows <= max(1, kids[1]) * max(1, kids[0])):
                return "rows of an optional part", info
            t = scan(d)
            if t:
                out.count("scans")
                want = sum(1 for s, p, o in kb.triples if p == t[1] and
                           (is_var(t[0]) or s == t[0]) and
                           (is_var(t[2]) or o == t[2]))
                if rows != want:
                    return "rows of a scan", "%d triples; %s" % (want, info)
            out.count("operations")
        return None

    def shrink(self, case, fail):
        n = fail.get("step")
        steps = case["steps"]
        if n is not None and n + 1 < len(steps):
            yield dict(case, steps=steps[:n + 1])
        for x in ddmin_lists(steps):
            yield dict(case, steps=x)
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)


SPEC = P23()
