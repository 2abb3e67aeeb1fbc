import vgen
from vmodel import (KB, Unsupported, compare_terms, eval_group, group_vars,
                    is_var, num_value, order_key)
from vsem import SemSpec, valid_query


def sortable(rows, v):
    """Whether the column has a defined order (one kind of values)."""
    if any(not isinstance(r.get(v, ""), str) for r in rows):
        return False
    vals = {r.get(v, "") for r in rows}
    try:
        kinds = {order_key(x)[0] for x in vals}
    except Unsupported:
        return False
    if len(kinds) > 1:
        return False
    seen = {}
    for x in vals:
        n = num_value(x)
        # equal numbers of different types have no defined order
        if n and seen.setdefault(n[0], n[1]) != n[1]:
            return False
    return True


class P06(SemSpec):
    id = "P06"
    rule = ("a query with ORDER BY, LIMIT, OFFSET or DISTINCT whose reference "
            "answer (before LIMIT and OFFSET) has at least two rows; two "
            "queries are the same if text, number of rows and the first 50 "
            "rows agree")
    cases = {"quick": 500, "thorough": 10000}

    def generate(self, rng, i, tier):
        if i % 30 == 3:
            return self.big(rng)
        triples = vgen.gen_kb(rng, n_trip=rng.randint(6, 50), langs=False)
        triples += [t for t in vgen.gen_kb(rng, n_trip=30, langs=False)
                    if not t[1].startswith("<p")]
        kb = KB(triples)
        gen = vgen.AlgebraGen(rng, triples, kb)
        queries = []
        tries = 0
        while len(queries) < 30 and tries < 150:
            tries += 1
            q = self.query(rng, gen, kb, triples)
            if q and valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def big(self, rng):
        """More rows, so that sorting and slicing see long inputs."""
        n = rng.choice([500, 2000, 6000])
        k = rng.choice([3, 50, 1000])
        triples = []
        for _ in range(n):
            e = "<e%d>" % rng.randrange(n)
            triples.append([e, "<num0>", vgen.lit_int(vgen.gen_int(rng))])
            triples.append([e, "<p0>", "<e%d>" % rng.randrange(k)])
        kb = KB(triples)
        queries = []
        for _ in range(12):
            where = rng.choice([
                [["t", "?v0", "<num0>", "?v1"]],
                [["t", "?v0", "<p0>", "?v1"]],
                [["t", "?v0", "<p0>", "?v1"], ["t", "?v0", "<num0>", "?v2"]]])
            q = self.modify(rng, where, eval_group(kb, where))
            if q and valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def query(self, rng, gen, kb, triples):
        if vgen.chance(rng, 0.3):
            q0 = gen.query(0)
            where = q0 and q0["where"]
        else:
            where = vgen.gen_bgp(rng, triples, n=rng.randint(1, 3),
                                 var_pred=0, max_const=0.2)
        if not where or vgen.int_bound(where):
            return None
        rows = eval_group(kb, where)
        if len(rows) < 2 or len(rows) > 3000:
            return None
        return self.modify(rng, where, rows)

    def modify(self, rng, where, rows):
        sel = vgen.pick_select(rng, vgen.all_vars(where))
        q = {"select": sel, "where": where}
        if vgen.chance(rng, 0.4):
            q["distinct"] = True
        n = len(rows)
        cert = group_vars(where)[1]
        pool = sel
        if not q.get("distinct") and vgen.chance(rng, 0.3):
            pool = sorted(cert)
        names = [v for v in pool if v in cert and sortable(rows, v)]
        if names and vgen.chance(rng, 0.8):
            rng.shuffle(names)
            q["order_by"] = [[rng.choice(["asc", "plain", "desc", "desc"]), v]
                             for v in
                             names[:rng.choices([1, 2, 3], [5, 3, 1])[0]]]
        if vgen.chance(rng, 0.5):
            q["limit"] = rng.choice([0, 1, 2, 3, n // 2, n - 1, n, n + 1,
                                     rng.randint(0, n + 3), 100000])
        if vgen.chance(rng, 0.4):
            q["offset"] = rng.choice([0, 1, 2, n // 2, n - 1, n, n + 1,
                                      rng.randint(0, n + 3)])
        return q

    def nontrivial_key(self, q, rows, case):
        if len(rows) < 2 or not any(q.get(k) is not None for k in (
                "order_by", "limit", "offset", "distinct")):
            return None
        return super().nontrivial_key(q, rows, case)

    def tally(self, q, rows, out):
        for d, v in q.get("order_by") or ():
            out.count("order " + d)
        out.count("order columns=%d" % len(q.get("order_by") or ()))
        for k in ("limit", "offset", "distinct"):
            if q.get(k) is not None:
                out.count(k)
        if q.get("distinct") and q.get("order_by"):
            out.count("distinct and order")


SPEC = P06()
