import vgen
from vmodel import KB
from vsem import SemSpec, valid_query


def kinds(g):
    for e in g:
        yield e[0]
        if e[0] in ("optional", "minus", "group"):
            yield from kinds(e[1])
        elif e[0] == "union":
            yield from kinds(e[1])
            yield from kinds(e[2])
        elif e[0] == "sub":
            yield from kinds(e[1]["where"])


class P03(SemSpec):
    id = "P03"
    rule = ("a query with at least one OPTIONAL, UNION, MINUS, VALUES, BIND, "
            "nested group or sub-query and a non-empty reference answer; "
            "identified by query text and answer")
    cases = {"quick": 900, "thorough": 18000}

    def generate(self, rng, i, tier):
        triples = vgen.gen_kb(rng, n_trip=rng.randint(6, 50), langs=False)
        kb = KB(triples)
        gen = vgen.AlgebraGen(rng, triples, kb)
        queries = []
        tries = 0
        while len(queries) < 30 and tries < 120:
            tries += 1
            q = gen.query()
            if q and valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def tally(self, q, rows, out):
        for k in set(kinds(q["where"])):
            out.count(k)
        out.count("empty" if not rows else "non-empty")
        if any(len(r) < len(vgen.all_vars(q["where"])) for r in rows[:200]):
            out.count("with unbound variables")


SPEC = P03()
