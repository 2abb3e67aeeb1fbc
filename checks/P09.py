import vgen
import vmodel
import vpool
from P07 import P07
from vmodel import (HAS, KB, TooBig, Unsupported, eval_query, is_var,
                    render_query, to_turtle)
from vrun import Outcome, Spec, ddmin_lists, digest
from vsem import compare, valid_query
from vserver import HttpError, IndexFailed, ServerDied

BAD = ["SELECT ?x WHERE { ?x", "SELECT ?x WHERE { ?x <p0> ?y . ?z <p0> ?w }",
       "nonsense", "SELECT ?x WHERE { ?x <p0> ?y } LIMIT -",
       "SELECT ?x WHERE { ?x <no-such-entity>+ ?y . ?y <p0>* ?z }"]


class P09(Spec):
    id = "P09"
    rule = ("a query of a history with a non-empty reference answer that is "
            "asked when at least one related query has been answered since "
            "the cache was last cleared; identified by query text, the text "
            "of the previous request and the cache configuration")
    cases = {"quick": 500, "thorough": 8000}

    def generate(self, rng, i, tier):
        has = i % 6 == 5
        close = False
        if has:
            sub = P07().generate(rng, i, tier)
            triples, queries = sub["triples"], sub["queries"][:8]
            for q in queries[:5]:
                # the same operations on other columns or constants
                new = vpool.tweak(rng, q, KB(triples))
                if new and self.fine(new, triples) and (
                        not q.get("group_by") or
                        [new["select"], new["group_by"]] ==
                        [q["select"], q["group_by"]]):
                    queries.append(new)
        else:
            triples = vpool.mixed_kb(rng)
            queries, close = [], i % 2
            if close:
                # one or two sets of queries that are hardly different
                for _ in range(rng.randint(1, 2)):
                    queries += vpool.family(rng, triples, KB(triples), 16)
            if not queries:
                queries = vpool.pool(rng, triples, rng.choice([3, 8, 14]))
        steps = []
        for _ in range(rng.randint(20, 60)):
            k = rng.random()
            if k < 0.8 and queries:
                mode = rng.choices(["", "pinresult", "pinsubtrees", "both"],
                                   [10, 2, 2, 1])[0]
                steps.append([vgen.pick(rng, range(len(queries))), mode])
            elif k < 0.85:
                steps.append(["clearcache", ""])
            elif k < 0.89:
                steps.append(["clearcachecomplete", ""])
            elif k < 0.93:
                steps.append([rng.choice(["stats", "cachestats"]), ""])
            else:
                steps.append(["bad", vgen.pick(rng, BAD)])
        if close and vgen.chance(rng, 0.7):
            # everything stays in the cache
            steps = [[n, ""] for n in range(len(queries))] * 2
            rng.shuffle(steps)
            return {"triples": triples, "queries": queries, "steps": steps,
                    "has": has, "entries": 1000, "unit": 1 << 30,
                    "cache_gb": 1, "entry_gb": 1}
        small = vgen.chance(rng, 0.5)     # limits in bytes
        return {"triples": triples, "queries": queries, "steps": steps,
                "has": has,
                "entries": rng.choice([1, 1, 2, 3, 5, 10, 1000]),
                "unit": 1 if small else 1 << 30,
                "cache_gb": rng.choice([100, 400, 1500, 5000] if small else
                                       [0, 1, 1, 1]),
                "entry_gb": rng.choice([30, 100, 400, 1500] if small else
                                       [0, 1, 1, 1])}

    def fine(self, q, triples):
        kb = KB(triples, has=True)
        known = {x for t in kb.triples for x in t}
        ts = [x for _, x in vpool.sites(q) if len(x) == 4 and x[0] == "t"]
        try:
            return valid_query(q) and not any(
                x[1] == x[3] or x[2] == HAS and
                not {y for y in (x[1], x[3]) if not is_var(y)} <= known
                for x in ts) and len(eval_query(kb, q)) < 2000
        except (TooBig, Unsupported):
            return False

    def run(self, env, case):
        out = Outcome()
        try:
            ix = env.tools.build_index(to_turtle(case["triples"]))
        except IndexFailed as e:
            out.fail("index build failed", detail=str(e)[:1500])
            return out
        sv = None
        try:
            sv = ix.serve(entries=case["entries"], cache_gb=case["cache_gb"],
                          entry_gb=case["entry_gb"],
                          mem=max(2, (1 << 30) // case["unit"]),
                          limits={"BYTES_PER_GB": case["unit"]})
            self.history(sv, case, out)
        except ServerDied as e:
            out.fail("server died", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def history(self, sv, case, out):
        kb = KB(case["triples"], has=case.get("has"))
        ref = {}
        warm, last = 0, None
        config = [case["entries"], case["cache_gb"], case["entry_gb"],
                  case["unit"]]
        for n, (what, mode) in enumerate(case["steps"]):
            if not isinstance(what, int):
                try:
                    if what == "bad":
                        sv.request([("query", mode)])
                    else:
                        sv.request([("cmd", what)])
                except HttpError as e:
                    out.fail("no answer", step=n, detail="%s %s: %s" % (
                        what, mode, e))
                    return
                if what.startswith("clear"):
                    warm = 0
                out.count(what)
                last = [what, mode]
                continue
            q = case["queries"][what]
            if what not in ref:
                ref[what] = P07().reference(kb, q, case) \
                    if case.get("has") else eval_query(kb, q)
            rows = ref[what]
            text = render_query(q)
            params = {"send": 100000}
            if mode in ("pinresult", "both"):
                params["pinresult"] = "true"
            if mode in ("pinsubtrees", "both"):
                params["pinsubtrees"] = "true"
            try:
                r = sv.query(text, clear=False, **params)
            except HttpError as e:
                out.fail("no answer", step=n, sparql=text, detail=str(e))
                return
            out.evaluations += 1
            out.count("query " + (mode or "unpinned"))
            if mode and (0 in config or case["unit"] == 1) and "to pin" in str(r.get("exception")):
                out.count("too big to be pinned")
                last = [text, mode]
                continue
            if r.get("status") != "OK":
                out.fail("error status", step=n, sparql=text,
                         detail=str(r.get("exception"))[:1500])
                return
            msg = compare(q, rows, r["res"])
            if msg:
                out.fail("wrong answer", step=n, sparql=text, detail=msg,
                         expected=len(rows),
                         actual=[list(x) for x in r["res"][:20]])
                return
            if rows and warm:
                out.nontrivial.append(digest([text, last, config]))
                if not out.samples:
                    out.samples.append({"step": n, "sparql": text,
                                        "mode": mode, "entries": config[0],
                                        "rows": len(rows)})
            warm += 1
            last = [text, mode]

    def shrink(self, case, fail):
        n = fail.get("step")
        steps = case["steps"]
        if n is not None and n + 1 < len(steps):
            yield dict(case, steps=steps[:n + 1])
        for s in ddmin_lists(steps[:-1]):
            yield dict(case, steps=s + steps[-1:])
        used = {s[0] for s in steps}
        for i, q in enumerate(case["queries"]):
            if i in used:
                for q2 in vgen.shrink_query(q):
                    if valid_query(q2):
                        qs = list(case["queries"])
                        qs[i] = q2
                        yield dict(case, queries=qs)
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)


SPEC = P09()
