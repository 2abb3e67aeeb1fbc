import re
from decimal import Decimal

import vgen
from vmodel import (KB, Unsupported, aggregate, eval_group, eval_grouping,
                    group_vars, is_var, num_value, order_key)
from vsem import SemSpec, valid_query

FUNCS = ["count", "min", "max", "sum", "avg", "sample", "concat"]


def shapes(rows, v):
    """What the values of a column can be used for."""
    vals = [r[v] for r in rows if v in r]
    if not vals or any(x == "" for x in vals):
        return set()
    res = {"count", "sample"}
    if any(v not in r for r in rows):
        return {"count"}
    if not any("|" in x for x in vals):
        res.add("concat")
    try:
        kinds = {order_key(x)[0] for x in vals}
    except Unsupported:
        kinds = set()
    if len(kinds) == 1:
        res |= {"min", "max"}
    nums = [num_value(x) for x in vals]
    if all(nums) and all(abs(n[0]) < Decimal("1e25") for n in nums):
        res |= {"sum", "avg"}
        # equal numbers of different types have no defined order
        seen = {}
        for n, t in nums:
            if seen.setdefault(n, t) != t:
                res -= {"min", "max"}
    return res


class P04(SemSpec):
    id = "P04"
    rule = ("a query with an aggregate or GROUP BY whose reference answer is "
            "non-empty; two queries are the same if text, number of groups "
            "and the first 50 groups agree")
    cases = {"quick": 1100, "thorough": 20000}

    def generate(self, rng, i, tier):
        triples = vgen.gen_kb(rng, n_trip=rng.randint(6, 50), langs=False)
        triples += [t for t in vgen.gen_kb(rng, n_trip=30, langs=False)
                    if not t[1].startswith("<p")]
        kb = KB(triples)
        gen = vgen.AlgebraGen(rng, triples, kb)
        queries = []
        tries = 0
        while len(queries) < 30 and tries < 150:
            tries += 1
            q = self.query(rng, gen, kb, triples)
            if q and valid_query(q):
                queries.append(q)
        return {"triples": triples, "queries": queries,
                "limits": vgen.gen_limits(rng)}

    def query(self, rng, gen, kb, triples, depth=1):
        if vgen.chance(rng, 0.3):
            q0 = gen.query(0)
            where = q0 and q0["where"]
        else:
            where = vgen.gen_bgp(rng, triples,
                                 n=rng.choice([1, 1, 2, 2, 3, 3, 4]),
                                 var_pred=0, max_const=0.2)
        if not where or vgen.int_bound(where):
            return None
        rows = eval_group(kb, where)
        if not rows or len(rows) > 3000:
            return None
        vs = [v for v in vgen.all_vars(where)]
        rng.shuffle(vs)
        k = rng.choices([0, 1, 2, 3, 4], [3, 9, 4, 3, 1])[0]
        gb = vs[:min(k, len(vs))]
        rest = vs[len(gb):] or vs
        items = []
        for j in range(rng.choices([0, 1, 2, 3], [1, 6, 3, 2])[0]
                       if gb else rng.randint(1, 2)):
            v = vgen.pick(rng, rest if vgen.chance(rng, 0.9) else vs)
            nums = [x for x in rest if "sum" in shapes(rows, x)]
            if nums and vgen.chance(rng, 0.6):
                v = vgen.pick(rng, nums)
            ok = sorted(shapes(rows, v))
            if not ok:
                continue
            fn = rng.choices(ok, [4 if f in ("sum", "avg") else 1
                                  for f in ok])[0]
            dis = vgen.chance(rng, 0.4) and fn not in ("sample", "min", "max")
            it = ["agg", fn, dis, v, "?agg%d" % j]
            if fn == "concat":
                it.append(rng.choice(["|", "|", " | ", "||"]))
            items.append(it)
        if not gb and not items:
            return None
        sel = [v for v in gb if vgen.chance(rng, 0.85)] + items
        if not sel:
            return None
        rng.shuffle(sel)
        q = {"select": sel, "where": where}
        if gb:
            q["group_by"] = gb
        res = eval_grouping(kb, q, rows)
        hav = []
        for it in items:
            if vgen.chance(rng, 0.25) and gb:
                h = self.having(rng, it, res)
                if h:
                    hav.append(h)
        if len(items) > 1 and vgen.chance(rng, 0.3) and gb:
            h = self.compare(rng, items, res)
            if h:
                hav.append(h)
        if hav:
            q["having"] = hav
        # (negative sums are not ordered correctly: known finding of P06)
        sortable = [it[4] for it in items if it[1] == "count" or
                    it[1] in ("sum", "avg") and
                    all(r[it[4]][1] - r[it[4]][2] / 1000 >= 0 for r in res)]
        if sortable and vgen.chance(rng, 0.25):
            q["order_by"] = [[rng.choice(["asc", "desc"]),
                              vgen.pick(rng, sortable)]]
        if vgen.chance(rng, 0.2) and all(
                it[1] == "count" or it[1] == "concat" and
                all(len(r[it[4]][2]) == 1 for r in res) for it in items):
            q["distinct"] = True
        if depth and gb and vgen.chance(rng, 0.2):
            return self.outside(rng, kb, q, items)
        if depth and gb and vgen.chance(rng, 0.35):
            return self.nest(rng, gen, kb, q, items)
        return q

    def having(self, rng, it, res):
        vals = [r[it[4]] for r in res]
        op = rng.choice(["=", "!=", "<", "<=", ">", ">="])
        if it[1] == "count":
            n = int(vgen.pick(rng, vals)) + rng.choice([-1, 0, 0, 0, 1])
            return ["cmp", op, it[4], ["num", str(max(n, 0))]]
        if it[1] in ("sum", "avg"):
            op = rng.choice(["<", "<=", ">", ">="])
            nums = sorted(v[1] for v in vals)
            x = vgen.pick(rng, nums)
            b = Decimal("%.3g" % (x + rng.choice([-1, 1]) * abs(x) / 10))
            if abs(b) > Decimal("1e12") or 0 < abs(b) < Decimal("1e-3") \
                    or b < 0:
                return None
            text = format(b, "f")
            if "." not in text:
                text += ".5"
                b = Decimal(text)
            if any(abs(n - b) <= abs(b) * Decimal("1e-4") + v[2] *
                   Decimal("1e-5") for n, v in zip(nums, sorted(
                       vals, key=lambda v: v[1]))):
                return None
            return ["cmp", op, it[4], ["num", text]]
        if it[1] == "concat":
            single = sorted({v[2][0] for v in vals if len(v[2]) == 1 and
                             re.match('^"[a-z0-9 ]*"$', v[2][0])})
            if single:
                return ["cmp", rng.choice(["=", "!="]), it[4],
                        vgen.pick(rng, single)]
        return None

    def compare(self, rng, items, res):
        """A comparison of two aggregates."""
        a, b = rng.sample(items, 2)
        if a[1] == b[1] == "count":
            return ["cmp", rng.choice(["=", "!=", "<", "<=", ">", ">="]),
                    a[4], b[4]]
        if {a[1], b[1]} <= {"sum", "avg"}:
            if all(abs(r[a[4]][1] - r[b[4]][1]) >
                   (r[a[4]][2] + r[b[4]][2]) * Decimal("1e-4") for r in res):
                return ["cmp", rng.choice(["<", "<=", ">", ">=", "!="]),
                        a[4], b[4]]
        return None

    def outside(self, rng, kb, q, items):
        """The grouped query as a sub-query, with filters on its columns."""
        res = eval_grouping(kb, q, eval_group(kb, q["where"]))
        if not res or any(it[1] in ("min", "max", "sample")
                          for it in items):
            return None
        fs = [self.having(rng, it, res) for it in items]
        fs.append(len(items) > 1 and self.compare(rng, items, res))
        fs = [f for f in fs if f]
        if not fs:
            return None
        where = [["sub", q]] + [["filter", f] for f in
                                rng.sample(fs, min(len(fs), 2))]
        rng.shuffle(where)
        return {"select": [x if is_var(x) else x[4] for x in q["select"]],
                "where": where}

    def nest(self, rng, gen, kb, q, items):
        """The grouped query as a sub-query joined with more triples."""
        cert = group_vars(q["where"])[1]
        names = [v for v in q["select"] if is_var(v) and v in cert]
        if not names or any(it[1] in ("min", "max", "sample")
                            for it in items):
            return None
        q = dict(q)
        q.pop("order_by", None)
        counts = [it[4] for it in items if it[1] in ("count", "sum", "avg")]
        if counts and vgen.chance(rng, 0.6):
            return self.regroup(rng, kb, q, vgen.pick(rng, counts), names)
        rows = eval_group(kb, q["where"])
        v = vgen.pick(rng, names)
        if not any(vgen.is_entity(r[v]) for r in rows[:50]):
            return None
        a = gen.attached(v, sorted({r[v] for r in rows}))
        if not a:
            return None
        sub = ["sub", q]
        where = [sub] + a if vgen.chance(rng, 0.5) else a + [sub]
        sel = [x if is_var(x) else x[4] for x in q["select"]]
        return {"select": sel + [x for x in vgen.all_vars(a)
                                 if x not in sel][:2], "where": where}

    def regroup(self, rng, kb, q, c, names):
        """Aggregates over the groups, e.g. how many have how many members."""
        vals = [r[c] for r in eval_grouping(kb, q,
                                            eval_group(kb, q["where"]))]
        exact = vals and not isinstance(vals[0], tuple)
        if vgen.chance(rng, 0.35) and exact:
            fn = rng.choice(["count", "concat"])
            it = ["agg", fn, False, vgen.pick(rng, names), "?out0"]
            if fn == "concat":
                it.append("|")
            return {"select": [c, it], "where": [["sub", q]],
                    "group_by": [c]}
        fn = rng.choice(["min", "max", "sum", "avg"])
        dis = fn in ("sum", "avg") and vgen.chance(rng, 0.5)
        if dis and not exact:
            # sums that may or may not be equal
            nums = sorted(vals, key=lambda v: v[1])
            dis = all(b[1] - a[1] > (a[2] + b[2]) * Decimal("1e-4")
                      for a, b in zip(nums, nums[1:]))
        it = ["agg", fn, dis, c, "?out0"]
        res = {"select": [it], "where": [["sub", q]]}
        if vgen.chance(rng, 0.5):
            v = vgen.pick(rng, names)
            res["select"].append(v)
            res["group_by"] = [v]
        return res

    def nontrivial_key(self, q, rows, case):
        if not rows:
            return None
        return super().nontrivial_key(q, rows, case)

    def tally(self, q, rows, out):
        for it in q["select"]:
            if not is_var(it):
                out.count(it[1] + (" distinct" if it[2] else "") +
                          (" of aggregates" if it[3].startswith("?agg")
                           else ""))
        out.count("grouping variables=%d" % len(q.get("group_by") or ()))
        out.count("having=%d" % len(q.get("having") or ()))
        if any(e[0] == "sub" for e in q["where"]):
            out.count("grouped sub-query")
        if q.get("distinct"):
            out.count("distinct")
        if any(e[0] == "filter" for e in q["where"]):
            out.count("filter")
        out.count("empty" if not rows else "non-empty")


SPEC = P04()
