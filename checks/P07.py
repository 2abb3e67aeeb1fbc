import vgen
import vmodel
from vmodel import (HAS, KB, TooBig, eval_group, eval_query, group_vars,
                    is_var)
from vsem import SemSpec, valid_query


def simple(q):
    """Only triples, and ?p is used once: the documented form of the query
    for the predicates of a set of subjects and their counts."""
    return all(e[0] == "t" for e in q["where"])


class P07(SemSpec):
    id = "P07"
    rule = ("a query with ql:has-predicate whose reference answer is "
            "non-empty; two queries are the same if text, number of rows and "
            "the first 50 rows agree")
    cases = {"quick": 450, "thorough": 9000}

    def kb(self, case):
        return KB(case["triples"], has=True)

    def generate(self, rng, i, tier):
        vmodel.JOIN_LIMIT = 60000
        n_pred = rng.randint(1, 9)
        triples = vgen.gen_kb(rng, n_pred=min(n_pred, 4),
                              n_trip=rng.randint(4, 50),
                              langs=False)
        preds = ["<q%d>" % j for j in range(n_pred)]
        ents = ["<e%d>" % j for j in range(rng.randint(1, 20))]
        many = vgen.chance(rng, 0.1)
        if many:
            ents += ["<f%d>" % j for j in range(rng.choice([60, 200]))]
        # a few frequent sets of predicates, and random ones
        common = [[p for p in preds if vgen.chance(rng, 0.5)]
                  for _ in range(3)]
        for e in ents:
            ps = vgen.pick(rng, common) if vgen.chance(rng, 0.6) else \
                [p for p in preds if vgen.chance(rng, 0.4)]
            for p in ps:
                for _ in range(rng.choices([1, 2, 3], [6, 2, 1])[0]):
                    triples.append([e, p, vgen.pick(rng, ents)])
        if vgen.chance(rng, 0.5):
            # predicates that are subjects and objects themselves
            for p in preds:
                if vgen.chance(rng, 0.5):
                    triples.append([p, "<about>", vgen.pick(rng, ents +
                                                            preds)])
                if vgen.chance(rng, 0.3):
                    triples.append([vgen.pick(rng, ents), "<uses>", p])
        if not triples:
            triples.append(["<e0>", "<q0>", "<e0>"])
        kb = KB(triples, has=True)
        both = list(dict.fromkeys(map(tuple, triples))) + kb.by_p[HAS]
        both = [list(t) for t in both]
        gen = vgen.AlgebraGen(rng, both, kb)
        queries = []
        tries = 0
        while len(queries) < 30 and tries < 200:
            tries += 1
            try:
                q = self.plain(rng, gen, kb, both) if vgen.chance(rng, 0.5) \
                    else self.counts(rng, gen, kb)
            except TooBig:
                continue
            if q and valid_query(q):
                queries.append(q)
        limits = vgen.gen_limits(rng) or {}
        if vgen.chance(rng, 0.5):
            limits["MAX_NUM_PATTERNS"] = rng.choice([1, 1, 2, 3, 5])
        return {"triples": triples, "queries": queries, "limits": limits or None}

    def plain(self, rng, gen, kb, both):
        if vgen.chance(rng, 0.6):
            where = vgen.gen_bgp(rng, both, n=rng.randint(1, 4), var_pred=0,
                                 max_const=0.2)
        else:
            q = gen.query(1)
            where = q and q["where"]
        if not where or not any(has(e) for e in where) or \
                any(loop(e) for e in where):
            return None
        rows = eval_group(kb, where)
        if len(rows) > 3000:
            return None
        q = {"select": vgen.pick_select(rng, vgen.all_vars(where)),
             "where": where}
        if vgen.chance(rng, 0.2):
            q["distinct"] = True
        return q

    def counts(self, rng, gen, kb):
        """The predicates of some subjects, with counts."""
        s = vgen.pick(rng, [t[0] for t in kb.by_p[HAS]])
        subj, where = "?s", [["t", "?s", HAS, "?p"]]
        k = rng.randrange(12)
        if k == 0:
            subj = s
            where = [["t", s, HAS, "?p"]]
        elif k > 1:
            a = gen.attached("?s", [s], k=rng.randint(1, 2))
            if not a or any(loop(e) for e in a):
                return None
            where += a
            rng.shuffle(where)
        if subj == "?s" and vgen.chance(rng, 0.3):
            v = vgen.pick(rng, ["?s", "?s", "?p"])
            x = s if v == "?s" else vgen.pick(rng, kb.match(s, HAS, None))[2]
            if x in gen.by_node:
                m = rng.choice(["optional", "minus", "union", "values",
                                "sub"])
                a = gen.attached(v, [x], k=1)
                b = gen.attached(v, [x], k=1)
                if not a or not b:
                    return None
                if m == "union":
                    where.append(["union", a, b])
                elif m == "values":
                    where.append(["values", [v], [[x], [vgen.pick(
                        rng, gen.ents)]]])
                elif m == "sub":
                    where.append(["sub", {"select": [v], "where": a,
                                          "distinct": True}])
                else:
                    where.append([m, a])
        if any(loop(e) for e in vgen_triples(where)):
            return None
        if vgen.chance(rng, 0.2):
            p = vgen.pick(rng, kb.match(s, HAS, None))[2]
            where.append(["filter", ["cmp", rng.choice(
                ["=", "!=", "<", "<=", ">", ">="]), "?p", p]])
        elif vgen.chance(rng, 0.1) and subj == "?s":
            where.append(["filter", ["cmp", rng.choice(
                ["=", "!=", "<", "<=", ">", ">="]), "?s", s]])
        if not valid_query({"select": ["?p"], "where": where}):
            return None
        rows = eval_group(kb, where)
        if not rows or len(rows) > 5000 or "?p" not in group_vars(where)[1]:
            return None
        unique = subj != "?s" or \
            len({(r["?s"], r["?p"]) for r in rows}) == len(rows)
        v = vgen.pick(rng, ["?s", "?p"]) if subj == "?s" else "?p"
        q = {"select": ["?p"], "where": where, "group_by": ["?p"]}
        if vgen.chance(rng, 0.8):
            q["select"].append(["agg", "count", False, v, "?c"])
            if unique and vgen.chance(rng, 0.25):
                q["having"] = [["cmp", rng.choice(["=", "<", ">=", ">"]),
                                "?c", ["num", str(rng.randint(1, 5))]]]
            if unique and vgen.chance(rng, 0.25):
                q["order_by"] = [[rng.choice(["asc", "desc"]), "?c"]]
        if unique and vgen.chance(rng, 0.1):
            q.pop("order_by", None)
            return {"select": [x if is_var(x) else x[4]
                               for x in q["select"]],
                    "where": [["sub", q]]}
        return q

    def reference(self, kb, q, case):
        rows = eval_query(kb, q)
        if not q.get("group_by"):
            return rows
        agg = [it for it in q["select"] if not is_var(it)]
        if not agg or q.get("having"):
            return rows
        # Plain COUNT counts every subject once, see DESIGN.md
        c = agg[0][4]
        subjects = {}
        for r in eval_group(kb, q["where"]):
            subjects.setdefault(r["?p"], set()).add(r.get("?s"))
        for r in rows:
            n = str(len(subjects[r["?p"]]))
            if n != r[c]:
                r[c] = n if simple(q) else ("any", [n, r[c]])
        return rows

    def tally(self, q, rows, out):
        out.count("empty" if not rows else "non-empty")
        out.count("grouped" if q.get("group_by") else "plain")
        for e in vgen_triples(q["where"]):
            if has(e):
                out.count("has " + ("v" if is_var(e[1]) else "c") +
                          ("v" if is_var(e[3]) else "c"))
        for e in q["where"]:
            if e[0] != "t":
                out.count("with " + e[0])


def has(e):
    return e[0] == "t" and e[2] == HAS


def loop(e):
    """?x ql:has-predicate ?x is not supported."""
    return has(e) and e[1] == e[3]


def vgen_triples(where):
    for e in where:
        if e[0] == "t":
            yield e
        elif e[0] == "sub":
            yield from vgen_triples(e[1]["where"])
        elif e[0] in ("optional", "minus", "union", "group"):
            for g in e[1:]:
                yield from vgen_triples(g)


SPEC = P07()
