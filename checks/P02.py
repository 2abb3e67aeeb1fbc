import vgen
from vmodel import KB, Unsupported, eval_group
from vsem import SemSpec, valid_query


class P02(SemSpec):
    starts = 1
    id = "P02"
    rule = ("a query with at least one FILTER for which the reference answer "
            "is non-empty and smaller than the answer without the filters; "
            "identified by query text and answer")
    cases = {"quick": 700, "thorough": 14000}

    def generate(self, rng, i, tier):
        triples = vgen.gen_kb(rng, n_trip=rng.randint(8, 60))
        # make sure that literals are frequent
        triples += [t for t in vgen.gen_kb(rng, n_trip=30)
                    if not t[1].startswith("<p")]
        kb = KB(triples)
        queries = []
        tries = 0
        while len(queries) < 30 and tries < 150:
            tries += 1
            where = vgen.gen_bgp(rng, triples, var_pred=0, max_const=0.25)
            if len(vgen.all_vars(where)) > 6:
                continue
            rows = eval_group(kb, where)
            if not rows or len(rows) > 3000:
                continue
            fs = []
            # planning is exponential in the number of triples and filters
            for _ in range(min(rng.choices([1, 2, 3], [6, 3, 1])[0],
                               max(1, 6 - len(where)))):
                f = vgen.gen_filter(rng, rows, where)
                if f and f not in fs:
                    fs.append(f)
            if not fs:
                continue
            w2 = list(where)
            for f in fs:
                w2.insert(rng.randint(0 if f[0] != "lang" else len(w2),
                                      len(w2)), ["filter", f])
            q = {"select": vgen.pick_select(rng, vgen.all_vars(where)),
                 "where": w2, "_unfiltered": len(rows)}
            if valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def nontrivial_key(self, q, rows, case):
        if len(rows) >= q.get("_unfiltered", 10**9):
            return None
        return super().nontrivial_key(q, rows, case)

    def tally(self, q, rows, out):
        for e in q["where"]:
            if e[0] == "filter":
                f = e[1]
                if f[0] == "cmp":
                    rhs = f[3]
                    t = "num" if isinstance(rhs, list) else (
                        "var" if rhs.startswith("?") else
                        "iri" if rhs.startswith("<") else
                        "typed" if "^^" in rhs else "string")
                    out.count("cmp %s %s" % (f[1], t))
                else:
                    out.count(f[0])
        out.count("empty" if not rows else "non-empty")


SPEC = P02()
