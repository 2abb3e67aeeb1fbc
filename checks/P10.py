import threading

import vgen
import vpool
from vmodel import KB, eval_query, render_query, to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vsem import compare, valid_query
from vserver import HttpError, IndexFailed, ServerDied

BAD = ["SELECT ?x WHERE { ?x", "nonsense",
       "SELECT ?x WHERE { ?x <p0> ?y . ?z <p0> ?w }"]


class P10(Spec):
    id = "P10"
    rule = ("an answer with a non-empty reference answer that was asked for in "
            "the same round as at least one other request; identified by the "
            "multiset of requests of the round and the query")
    cases = {"quick": 300, "thorough": 4000}
    parallel = 4
    need = 2
    replays = 20

    def generate(self, rng, i, tier):
        if vgen.chance(rng, 0.3):
            triples, queries = self.heavy(rng)
        else:
            triples = vpool.mixed_kb(rng, size=rng.choice([20, 50, 400]))
            queries = vpool.pool(rng, triples, rng.choice([2, 4, 8]))
        n = rng.choice([2, 3, 4, 8])
        # Limits in bytes. Then a subtree that cannot be pinned is a failed
        # computation, which also fails those who wait for the whole result.
        small = vgen.chance(rng, 0.4)
        modes = ["", "pinresult", "" if small else "pinsubtrees"]
        rounds = []
        for _ in range(rng.randint(15, 30)):
            one = vgen.pick(rng, range(len(queries)))
            same = vgen.chance(rng, 0.4)
            r = []
            for _ in range(n):
                k = rng.random()
                if k < 0.85:
                    mode = rng.choices(modes, [10, 1, 1])[0]
                    r.append([one if same else
                              vgen.pick(rng, range(len(queries))), mode])
                elif k < 0.90:
                    r.append(["clearcache", ""])
                elif k < 0.94:
                    r.append(["clearcachecomplete", ""])
                elif k < 0.97:
                    r.append([rng.choice(["stats", "cachestats"]), ""])
                else:
                    r.append(["bad", vgen.pick(rng, BAD)])
            rounds.append(r)
        return {"triples": triples, "queries": queries, "rounds": rounds,
                "unit": 1 if small else 1 << 30,
                "cache_gb": rng.choice([100, 1500, 20000]) if small else 1,
                "entry_gb": rng.choice([30, 400, 5000]) if small else 1,
                "entries": rng.choice([1, 3, 10, 1000, 1000]),
                "threads": n if vgen.chance(rng, 0.8) else 2, "times": 1}

    def heavy(self, rng):
        """Queries that share joins which take a few milliseconds."""
        n = rng.choice([1000, 3000])
        triples = [["<e%d>" % rng.randrange(n // 8), "<p%d>" % rng.randrange(3),
                    "<e%d>" % rng.randrange(n // 8)] for _ in range(n)]
        queries = []
        for _ in range(rng.randint(2, 5)):
            a, b = rng.randrange(3), rng.randrange(3)
            w = [["t", "?x", "<p%d>" % a, "?y"], ["t", "?y", "<p%d>" % b,
                                                  "?z"]]
            if vgen.chance(rng, 0.3):
                w.append([rng.choice(["optional", "minus"]),
                          [["t", "?z", "<p%d>" % rng.randrange(3), "?y"]]])
            v, g = rng.sample(["?x", "?y", "?z"], 2)
            q = {"select": [g, ["agg", "count", vgen.chance(rng, 0.3), v,
                                "?c"]],
                 "where": w, "group_by": [g]}
            if vgen.chance(rng, 0.3):
                q = {"select": [g, v], "where": w, "distinct": True}
            queries.append(q)
        return triples, queries

    def run(self, env, case):
        out = Outcome()
        try:
            ix = env.tools.build_index(to_turtle(case["triples"]))
        except IndexFailed as e:
            out.fail("index build failed", detail=str(e)[:1500])
            return out
        sv = None
        try:
            sv = ix.serve(entries=case["entries"], threads=case["threads"],
                          cache_gb=case["cache_gb"],
                          entry_gb=case["entry_gb"],
                          mem=max(2, (1 << 30) // case["unit"]),
                          limits={"BYTES_PER_GB": case["unit"]})
            kb = KB(case["triples"])
            ref = [eval_query(kb, q) for q in case["queries"]]
            for _ in range(case["times"]):
                self.clients(sv, case, ref, out)
                if out.failure:
                    break
            if not out.failure and not sv.alive():
                out.fail("server died", detail=sv.tail())
        except ServerDied as e:
            out.fail("server died", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def clients(self, sv, case, ref, out):
        n = len(case["rounds"][0])
        barrier = threading.Barrier(n)
        lock = threading.Lock()

        def client(k):
            for no, r in enumerate(case["rounds"]):
                try:
                    barrier.wait(60)
                except threading.BrokenBarrierError:
                    return
                what, mode = r[k]
                bad = self.ask(sv, case, ref, what, mode)
                with lock:
                    if bad:
                        out.fail(bad[0], round=no, client=k, detail=bad[1],
                                 sparql=bad[2])
                        barrier.abort()
                        return
                    if isinstance(what, int):
                        out.evaluations += 1
                        out.count("query " + (mode or "unpinned"))
                        if ref[what]:
                            out.nontrivial.append(digest(
                                [[case["queries"][x[0]] if isinstance(
                                    x[0], int) else x for x in r], what]))
                    else:
                        out.count(what)
        ts = [threading.Thread(target=client, args=(k,)) for k in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if not out.samples and case["queries"]:
            out.samples.append({"clients": n, "threads": case["threads"],
                                "rounds": len(case["rounds"]), "first round":
                                case["rounds"][0]})

    def ask(self, sv, case, ref, what, mode):
        try:
            if what == "bad":
                sv.request([("query", mode)])
                return None
            if not isinstance(what, int):
                sv.request([("cmd", what)])
                return None
            q = case["queries"][what]
            text = render_query(q)
            params = {"send": 100000}
            if mode:
                params[mode] = "true"
            r = sv.query(text, clear=False, **params)
        except HttpError as e:
            return "no answer", str(e), "%s %s" % (what, mode)
        except ServerDied as e:
            return "server died", str(e), "%s %s" % (what, mode)
        if r.get("status") != "OK":
            if mode and case["unit"] == 1 and \
                    "pin" in str(r.get("exception")):
                return None               # too big for the cache
            return "error status", str(r.get("exception"))[:800], text
        msg = compare(q, ref[what], r["res"])
        if msg:
            return "wrong answer", msg, text
        return None

    def focus(self, case, fail):
        return dict(case, times=25)

    def shrink(self, case, fail):
        rounds = case["rounds"]
        for s in ddmin_lists(rounds):
            if s:
                yield dict(case, rounds=s, times=25)
        n = len(rounds[0])
        if n > 2:
            for k in range(n):
                yield dict(case, rounds=[r[:k] + r[k + 1:] for r in rounds],
                           times=25)
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t, times=25)


SPEC = P10()
