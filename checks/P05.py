import vgen
from vmodel import (KB, eval_group, is_var, path_can_be_empty,
                    path_has_empty, path_pairs)
from vsem import SemSpec, valid_query


class P05(SemSpec):
    id = "P05"
    rule = ("a query with a property path whose reference answer is "
            "non-empty; two queries are the same if text, number of rows and "
            "the first 50 rows agree")
    cases = {"quick": 550, "thorough": 11000}

    def generate(self, rng, i, tier):
        n = rng.randint(2, 14)
        triples = vgen.gen_kb(rng, n_ent=n, n_pred=rng.randint(1, 4),
                              n_trip=rng.randint(4, 40), langs=False)
        if vgen.chance(rng, 0.5):
            # long chains, cycles with chords and trees
            k = rng.randint(2, 12)
            for j in range(k):
                triples.append(["<e%d>" % (j % n), "<p0>",
                                "<e%d>" % ((j + 1) % n)])
            for _ in range(rng.randint(0, 3)):
                triples.append(["<e%d>" % rng.randrange(n), "<p0>",
                                "<e%d>" % rng.randrange(n)])
        kb = KB(triples)
        gen = vgen.AlgebraGen(rng, triples, kb)
        queries = []
        tries = 0
        while len(queries) < 30 and tries < 150:
            tries += 1
            q = self.query(rng, gen, kb, triples)
            if q and valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def path(self, rng, preds, depth):
        k = rng.choices(["iri", "inv", "seq", "alt", "plus", "star", "opt",
                         "max"],
                        [4, 2, 5, 3, 4, 2, 2, 2] if depth else
                        [1, 0, 0, 0, 0, 0, 0, 0])[0]
        if k == "iri":
            return ["iri", vgen.pick(rng, preds)]
        if k in ("seq", "alt"):
            return [k] + [self.path(rng, preds, depth - 1)
                          for _ in range(rng.choices([2, 3, 4],
                                                     [6, 3, 1])[0])]
        p = [k, self.path(rng, preds, depth - 1)]
        if k == "max":
            p.append(rng.randint(1, 4))
        return p

    def query(self, rng, gen, kb, triples):
        preds = sorted({t[1] for t in triples
                        if vgen.is_entity(t[2])})
        for _ in range(20):
            path = self.path(rng, preds, rng.choices([1, 2, 3],
                                                     [3, 4, 2])[0])
            if path[0] != "iri" and not path_can_be_empty(path):
                break
        else:
            return None
        pairs = path_pairs(kb, path)
        if len(pairs) > 1500 or not pairs and vgen.chance(rng, 0.7):
            return None
        some = vgen.pick(rng, pairs) if pairs else \
            [vgen.pick(rng, gen.ents), vgen.pick(rng, gen.ents)]
        s, o = "?x", "?y"
        k = rng.randrange(10)
        if k <= 1:
            s = some[0]
        elif k <= 3:
            o = some[1]
        elif k == 4:
            loops = [a for a, b in pairs if a == b]
            if loops:
                o = s
                some = [loops[0], loops[0]]
        where = [["t", s, path, o]]
        # join both, one or none of the ends with more triples
        for v, x in ((s, some[0]), (o, some[1])):
            if is_var(v) and vgen.chance(rng, 0.4):
                a = gen.attached(v, [x], k=rng.choice([1, 1, 2, 2, 3, 4]))
                if a:
                    where += a
                    if vgen.chance(rng, 0.3):
                        where += gen.attached(v, [x], k=1) or []
        if vgen.chance(rng, 0.12) and o == "?y":
            # a second path from the same start
            p2 = self.path(rng, preds, 2)
            if p2[0] != "iri" and not path_can_be_empty(p2):
                where.append(["t", "?y", p2, vgen.pick(rng, ["?z", "?x"
                              if s == "?x" else "?z"])])
        rng.shuffle(where)
        where = self.wrap(rng, gen, where, s, o, some)
        try:
            if len(eval_group(kb, where)) > 3000:
                return None
        except RecursionError:
            return None
        q = {"select": vgen.pick_select(rng, vgen.all_vars(where)),
             "where": where}
        if vgen.chance(rng, 0.2) or self.empty_part(q):
            q["distinct"] = True
        return q

    def wrap(self, rng, gen, where, s, o, some):
        """Sometimes put the path into a nested group, or next to a
        sub-query."""
        ends = [(v, x) for v, x in zip((s, o), some) if is_var(v)]
        if not ends or not vgen.chance(rng, 0.25):
            return where
        v, x = vgen.pick(rng, ends)
        base = gen.attached(v, [x], k=1)
        if not base or not any(v in vgen.tvars(e) for e in base):
            return where
        k = rng.choice(["optional", "minus", "union", "sub"])
        if k == "sub":
            inner = gen.attached(v, [x], k=2)
            if not inner or not any(v in vgen.tvars(e) for e in inner):
                return where
            return where + [["sub", {"select": [v], "where": inner}]]
        if k == "union":
            return base + [["union", where, [["t", v, vgen.pick(
                rng, gen.by_node[x])[1] if x in gen.by_node else
                "<p0>", gen.fresh()]]]]
        return base + [[k, where]]

    def empty_part(self, q):
        """An optional part may be counted once or several times."""
        return any(path_has_empty(p) for p in paths(q["where"]))

    def tally(self, q, rows, out):
        out.count("empty" if not rows else "non-empty")
        for e in triples(q["where"]):
            if isinstance(e[2], list):
                for op in ops(e[2]):
                    out.count(op)
                out.count("ends " + ("v" if is_var(e[1]) else "c") +
                          ("=" if e[3] == e[1] else
                           "v" if is_var(e[3]) else "c"))
        for e in q["where"]:
            if e[0] != "t":
                out.count("with " + e[0])
        out.count("triples=%d" % len(q["where"]))


def triples(where):
    for e in where:
        if e[0] == "t":
            yield e
        elif e[0] == "sub":
            yield from triples(e[1]["where"])
        else:
            for g in e[1:]:
                yield from triples(g)


def paths(where):
    return [e[2] for e in triples(where) if isinstance(e[2], list)]


def ops(p):
    res = {p[0]}
    for x in p[1:]:
        if isinstance(x, list):
            res |= ops(x)
    return res


SPEC = P05()
