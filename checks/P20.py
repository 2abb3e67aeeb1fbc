"""The cache keeps recent and pinned results and stays within its limits."""
import json

from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, ServerDied


def kb(sizes):
    return "".join("<s%d> <r%d> <o%d> .\n" % (i, r, i % 7)
                   for r, n in enumerate(sizes) for i in range(n))


class P20(Spec):
    id = "P20"
    rule = ("a query that has to be answered from the cache, or one that "
            "must not be, after at least two other requests; identified by "
            "the sizes, the limits and the requests so far")
    cases = {"quick": 700, "thorough": 16000}

    def generate(self, rng, i, tier):
        n = rng.choice([2, 3, 5, 8, 12])
        top = rng.choice([1, 5, 20, 60])
        sizes = [rng.randint(1, top) for _ in range(n)]
        ids = [2 * s for s in sizes]
        total = sum(ids)
        limit = rng.choice([total, rng.randint(1, total),
                            rng.randint(1, total), ids[0] + ids[1],
                            max(ids)])
        single = rng.choice([limit, limit, max(ids), max(1, max(ids) - 1),
                             rng.randint(1, max(ids))])
        steps = []
        hot = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
        for _ in range(rng.choice([6, 15, 40, 80])):
            k = rng.random()
            r = rng.choice(hot) if rng.random() < 0.4 else rng.randrange(n)
            if k < 0.78:
                steps.append(["query", r])
            elif k < 0.88:
                steps.append(["pinresult", r])
            elif k < 0.9:
                steps.append(["pinsubtrees", r])
            elif k < 0.94:
                steps.append(["clearcache"])
            elif k < 0.96:
                steps.append(["clearcachecomplete"])
            else:
                steps.append(["bad"])
        return {"sizes": sizes, "limit": 8 * limit + rng.choice([0, 0, 7]),
                "single": 8 * single + rng.choice([0, 0, 7]),
                "entries": rng.choice([1, 2, 3, n, n + 1, 1000]),
                "steps": steps}

    def run(self, env, case):
        out = Outcome()
        ix = env.tools.build_index(kb(case["sizes"]), args=["--no-patterns"])
        sv = None
        try:
            sv = ix.serve(args=["--no-patterns"], mem=1 << 30,
                          cache_gb=case["limit"], entry_gb=case["single"],
                          entries=case["entries"],
                          limits={"BYTES_PER_GB": 1})
            self.history(sv, case, out)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def stats(self, sv):
        _, body = sv.request({"cmd": "cachestats"})
        j = json.loads(body.decode())
        return (j["num-non-pinned-entries"], j["num-pinned-entries"],
                j["non-pinned-size"], j["pinned-size"])

    def history(self, sv, case, out):
        sizes = [2 * n for n in case["sizes"]]
        limit, single = case["limit"] // 8, case["single"] // 8
        pinned, recent = set(), []       # recent: the last one is the newest
        for j, st in enumerate(case["steps"]):
            if st[0] in ("clearcache", "clearcachecomplete"):
                sv.request({"cmd": st[0]})
                recent = []
                if st[0] == "clearcachecomplete":
                    pinned = set()
            elif st[0] == "bad":
                sv.request({"query": "SELECT ?x WHERE { ?x <r0> }"})
            else:
                if self.query(sv, case, j, st, sizes, single, limit, pinned,
                              recent, out):
                    return
            nn, np, sn, sp = self.stats(sv)
            out.evaluations += 1
            why = None
            if nn and nn + np > case["entries"]:
                why = "too many entries"
            elif nn and sn + sp > limit:
                why = "too big"
            elif np != len(pinned):
                why = "%d pinned entries instead of %d" % (np, len(pinned))
            elif sp != sum(sizes[r] for r in pinned):
                why = "pinned size %d instead of %d" % (
                    sp, sum(sizes[r] for r in pinned))
            elif nn > len(recent) or \
                    sn > sum(sizes[r] for r in recent):
                why = "more entries than there were queries"
            if why:
                out.fail("cache: " + why, step=j, detail="after %s: entries "
                         "%d, pinned %d, size %d, pinned size %d (limits: %d "
                         "entries, size %d, single %d)" % (
                             st, nn, np, sn, sp, case["entries"], limit,
                             single))
                return

    def query(self, sv, case, j, st, sizes, single, limit, pinned, recent,
              out):
        r = st[1]
        p = {"query": "SELECT ?x ?y WHERE { ?x <r%d> ?y }" % r}
        if st[0] != "query":
            p[st[0]] = "true"
        _, body = sv.request(p)
        a = json.loads(body.decode())
        out.evaluations += 1
        if sizes[r] > single:
            expect = False
        elif r in pinned:
            expect = True
        elif r not in recent:
            expect = False
        else:
            # has to be there if everything that was used since then fits
            since = recent[recent.index(r):]
            expect = True if \
                sum(sizes[x] for x in since) + sum(
                    sizes[x] for x in pinned) <= limit and \
                len(since) + len(pinned) <= case["entries"] else None
        if a.get("status") != "OK":
            if st[0] != "query" and sizes[r] > single and \
                    "pin" in str(a.get("exception")):
                out.count("too big for being pinned")
                return False
            out.fail("error status", step=j,
                     detail=str(a.get("exception"))[:800])
            return True
        if st[0] != "query" and sizes[r] > single:
            out.fail("pinned although it is too big", step=j, detail=str(st))
            return True
        if len(a["res"]) != case["sizes"][r]:
            out.fail("wrong answer", step=j, detail="%s: %d rows" % (
                st, len(a["res"])))
            return True
        cached = a["runtimeInformation"]["was_cached"]
        if expect is not None and cached != expect:
            out.fail("cached" if cached else "not cached", step=j,
                     detail="%s was%s answered from the cache; recent %s, "
                     "pinned %s, sizes %s, limits %d entries, size %d, "
                     "single %d" % (st, "" if cached else " not", recent,
                                    sorted(pinned), sizes, case["entries"],
                                    limit, single))
            return True
        out.count("must be cached" if expect else
                  "may be cached" if expect is None else "must not be cached")
        if j >= 2 and expect is not None:
            out.nontrivial.append(digest(
                [case["sizes"], case["limit"], case["single"],
                 case["entries"], case["steps"][:j + 1]]))
            if not out.samples and expect and r not in pinned:
                out.samples.append({"sizes": sizes, "limit": limit,
                                    "entries": case["entries"],
                                    "requests": case["steps"][:j + 1]})
        if r in recent:
            recent.remove(r)
        if st[0] != "query":
            pinned.add(r)
        elif r not in pinned and sizes[r] <= single:
            recent.append(r)
        return False

    def shrink(self, case, fail):
        if fail.get("step") is not None and \
                fail["step"] + 1 < len(case["steps"]):
            yield dict(case, steps=case["steps"][:fail["step"] + 1])
        for st in ddmin_lists(case["steps"]):
            yield dict(case, steps=st)
        for k, n in enumerate(case["sizes"]):
            if n > 1:
                yield dict(case, sizes=case["sizes"][:k] + [1] +
                           case["sizes"][k + 1:])


SPEC = P20()
