import vgen
from vsem import SemSpec, valid_query


class P01(SemSpec):
    id = "P01"
    rule = ("a query whose reference answer is non-empty; two queries are the "
            "same if text, number of rows and the first 50 rows agree")
    cases = {"quick": 700, "thorough": 14000}

    def generate(self, rng, i, tier):
        if i % 25 == 7:
            return self.big(rng)
        # Patterns with a variable predicate also match the predicates the
        # engine adds for language tags (known finding KF-LANGPRED), so they
        # are only generated for KBs without language tags.
        langs = i % 3 == 0
        triples = vgen.gen_kb(rng, langs=langs)
        queries = []
        for _ in range(30):
            where = vgen.gen_bgp(rng, triples,
                                 var_pred=0 if langs else 0.15)
            if vgen.chance(rng, 0.15):
                where = self.mutate(rng, where, triples)
            q = {"select": vgen.pick_select(rng, vgen.all_vars(where)),
                 "where": where, "distinct": vgen.chance(rng, 0.15)}
            if valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def mutate(self, rng, where, triples):
        """Replace one constant, so that the answer may become empty."""
        where = [list(t) for t in where]
        t = vgen.pick(rng, where)
        i = rng.choice([1, 2, 3])
        if not t[i].startswith("?"):
            t[i] = vgen.pick(rng, triples)[i - 1]
        return where

    def big(self, rng):
        """A KB with relations above the thresholds for blocks/galloping."""
        n = rng.choice([3000, 22000, 30000])
        ents = rng.choice([200, 5000, 25000])
        skew = rng.random() < 0.5

        def ent():
            r = rng.random()
            if skew and r < 0.1:
                return "<e%05d>" % rng.choice([0, 1, ents // 2, ents - 1])
            return "<e%05d>" % rng.randrange(ents)

        triples = [[ent(), "<p0>", ent()] for _ in range(n)]
        for j in range(n // 10):
            triples.append([ent(), "<p1>", "<e%05d>" % rng.randrange(20)])
        # small relations with repeated subjects or objects, placed at the
        # beginning, in the middle or at the end of the big ones
        small = ["<%s%d>" % ("as"[j // 2 % 2], j) for j in range(8)]
        for j, p in enumerate(small):
            lo = rng.choice([0, 0, ents // 2, max(0, ents - 12)])
            span = rng.choice([2, 6, 12, ents])
            for _ in range(rng.choice([1, 3, 6, 12, 18])):
                x = "<e%05d%s>" % (min(ents - 1, lo + rng.randrange(span)),
                                   "x" if rng.random() < 0.25 else "")
                t = [x, p, "<o%d>" % rng.randrange(9)]
                if j % 2:
                    t = [t[2], p, x]
                triples.append(t)
        queries = []

        def q(*ts):
            w = [["t"] + list(t) for t in ts]
            queries.append({"select": vgen.all_vars(w), "where": w})
        for _ in range(25):
            e = ent()
            q((e, "<p0>", "?x"))
            q(("?x", "<p0>", e))
            t = vgen.pick(rng, triples)
            q((t[0], "<p0>", "?x"))
            q(("?x", "<p0>", t[2]))
            q((t[0], "?p", "?x"))
            q(("?x", "?p", t[2]))
        for j, p in enumerate(small):
            t = ("?a", p, "?x") if j % 2 else ("?x", p, "?a")
            q(t, ("?x", "<p0>", "?z"))
            q(t, ("?z", "<p0>", "?x"))
            q(t, ("?z", "<p0>", "?x"), ("?x", "<p1>", "?w"))
            q(t, ("?z", "?q", "?x"))
            q(t, ("?x", "?q", "?z"))
        q(("?x", "<p1>", "?y"), ("?x", "<p0>", "?z"))
        q(("?x", "<p1>", "<e00003>"), ("?x", "<p0>", "?z"))
        q(("?x", "<p0>", "?y"), ("?y", "<p0>", "?x"))
        q(("?x", "<p0>", "?x"))
        return {"triples": triples, "queries": queries}


SPEC = P01()
