"""Pools of related queries over one knowledge base."""
import os
import sys

import vgen
import vmodel
from vmodel import KB, TooBig, Unsupported, eval_group, eval_query, is_var
from vsem import valid_query

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "checks"))
import P02  # noqa: E402
import P04  # noqa: E402
import P05  # noqa: E402
import P06  # noqa: E402


def mixed_kb(rng, langs=False, size=None):
    triples = vgen.gen_kb(rng, n_trip=size or rng.randint(6, 50), langs=langs)
    triples += [t for t in vgen.gen_kb(rng, n_trip=30, langs=langs)
                if not t[1].startswith("<p")]
    return triples


def filtered(rng, triples, kb):
    where = vgen.gen_bgp(rng, triples, n=rng.randint(1, 3), var_pred=0,
                         max_const=0.25)
    rows = eval_group(kb, where)
    if not rows or len(rows) > 2000:
        return None
    f = vgen.gen_filter(rng, rows, where)
    if not f or f[0] == "lang":
        return None
    return {"select": vgen.pick_select(rng, vgen.all_vars(where)),
            "where": where + [["filter", f]]}


def sites(x, at=()):
    """All lists inside a query, with their places."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from sites(v, at + (k,))
    elif isinstance(x, list):
        yield at, x
        for k, v in enumerate(x):
            yield from sites(v, at + (k,))


def replaced(x, at, new):
    if not at:
        return new
    x = dict(x) if isinstance(x, dict) else list(x)
    x[at[0]] = replaced(x[at[0]], at[1:], new)
    return x


def tweak(rng, q, kb):
    """The query with one detail of one operation changed."""
    found = []
    vs = sorted(vmodel.group_vars(q["where"])[1])
    ents = sorted({t[0] for t in kb.triples if t[0].startswith("<")})
    # other values for a variable only if all its uses take all values
    free = not any(x[0] in ("bind", "agg", "cmp") for _, x in sites(q)
                   if x and isinstance(x[0], str))
    for at, x in sites(q):
        k = x[0] if x and isinstance(x[0], str) else None
        if k == "t" and len(x) == 4:
            if free and is_var(x[1]) and is_var(x[3]) and x[1] != x[3]:
                found.append((at, ["t", x[3], x[2], x[1]]))
            for i in (1, 3):
                if x[i] in ents:
                    y = list(x)
                    y[i] = vgen.pick(rng, ents)
                    found.append((at, y))
                elif free and is_var(x[i]) and vs:
                    y = list(x)
                    y[i] = vgen.pick(rng, vs)
                    found.append((at, y))
        elif k == "agg":
            if x[1] in ("count", "sum", "concat"):
                found.append((at, x[:2] + [not x[2]] + x[3:]))
            if x[1] in ("count", "sample") and vs:
                found.append((at, x[:3] + [vgen.pick(rng, vs)] + x[4:]))
            if x[1] in ("min", "max"):
                found.append((at, ["agg", "max" if x[1] == "min" else "min"] +
                              x[2:]))
        elif k in ("plus", "max"):
            found.append((at, rng.choice([["plus", x[1]], ["max", x[1], 2],
                                          ["max", x[1], 3]])))
        elif k in ("asc", "desc"):
            found.append((at, ["desc" if k == "asc" else "asc", x[1]]))
        elif k == "cmp" and not isinstance(x[3], list):
            found.append((at, ["cmp", rng.choice(
                ["=", "!=", "<", "<=", ">", ">="])] + x[2:]))
        elif k == "regex":
            found.append((at, x[:3] + ["" if x[3] else "i"]))
        elif k == "prefixes" and len(x[1]) > 1:
            found.append((at, ["prefixes", x[1][:-1]]))
        elif k == "union":
            found.append((at, ["union", x[2], x[1]]))
        elif k == "values" and len(x[1]) > 1:
            found.append((at, ["values", x[1][::-1], x[2]]))
            found.append((at, ["values", x[1], [r[::-1] for r in x[2]]]))
        elif at == ("select",) and len(x) > 1 and not q.get("order_by"):
            found.append((at, x[:-1]))
        elif at == ("group_by",) and vs:
            found.append((at, x[:-1] + [vgen.pick(rng, vs)]))
    if not found:
        return None
    at, new = vgen.pick(rng, found)
    return replaced(q, at, new)


def renamed(rng, q):
    vs = sorted(vmodel.query_vars(q)[0] | vmodel.group_vars(q["where"])[0])
    for v in vs:
        if not v.startswith("?agg"):
            q = deep(q, v, v + "r")
    return q


def deep(x, old, new):
    if isinstance(x, list):
        return [deep(y, old, new) for y in x]
    if isinstance(x, dict):
        return {k: deep(v, old, new) for k, v in x.items()}
    return new if x == old else x


def variant(rng, q, triples, kb, p06):
    """A query that shares parts with q."""
    q = {k: v for k, v in q.items()}
    if vgen.chance(rng, 0.5):
        return tweak(rng, q, kb)
    k = rng.randrange(8)
    if k == 0:
        return renamed(rng, q)
    if k == 1:
        q["select"] = rng.sample(q["select"], len(q["select"]))
        return q
    if k == 2 and all(e[0] in ("t", "filter") for e in q["where"]):
        q["where"] = rng.sample(q["where"], len(q["where"]))
        return q
    if k == 3:
        consts = [x for e in q["where"] if e[0] == "t" for x in (e[1], e[3])
                  if not is_var(x) and x.startswith("<e")]
        if not consts:
            return None
        ents = sorted({t[0] for t in triples})
        return deep(q, vgen.pick(rng, consts), vgen.pick(rng, ents))
    if k == 4:
        # the same operation with another modifier
        if q.get("group_by") or any(not is_var(x) for x in q["select"]):
            return None
        rows = eval_group(kb, q["where"])
        if not rows or len(rows) > 2000 or vgen.int_bound(q["where"]) or \
                any(not isinstance(x, str) for r in rows for x in r.values()):
            return None
        return p06.modify(rng, q["where"], rows)
    if k == 5:
        if len(q["where"]) < 2:
            return None
        w = list(q["where"])
        del w[rng.randrange(len(w))]
        q["where"] = w
        poss = vmodel.group_vars(w)[0]
        if any(not is_var(x) for x in q["select"]) or q.get("group_by") or \
                q.get("order_by"):
            return None
        q["select"] = [v for v in q["select"] if v in poss]
        return q
    if k == 6:
        # another filter on the same pattern
        w = [e for e in q["where"] if e[0] != "filter"]
        if not all(e[0] == "t" and not isinstance(e[2], list) for e in w):
            return None
        rows = eval_group(kb, w)
        if not rows or len(rows) > 2000:
            return None
        f = vgen.gen_filter(rng, rows, w)
        if not f or f[0] == "lang":
            return None
        q["where"] = w + [["filter", f]]
        return q
    if any(not is_var(x) for x in q["select"]):
        return None
    q["distinct"] = not q.get("distinct")
    if q.get("order_by") or not q["distinct"]:
        return None
    return q


def pool(rng, triples, n, kb=None):
    kb = kb or KB(triples)
    gen = vgen.AlgebraGen(rng, triples, kb)
    p04, p05, p06 = P04.P04(), P05.P05(), P06.P06()
    out = []
    seen = set()
    for _ in range(n * 8):
        if len(out) >= n:
            break
        try:
            if out and vgen.chance(rng, 0.55):
                q = variant(rng, vgen.pick(rng, out), triples, kb, p06)
            else:
                k = rng.randrange(6)
                if k == 0:
                    w = vgen.gen_bgp(rng, triples, n=rng.randint(1, 4),
                                     var_pred=0.05)
                    q = {"select": vgen.pick_select(rng, vgen.all_vars(w)),
                         "where": w}
                elif k == 1:
                    q = filtered(rng, triples, kb)
                elif k == 2:
                    q = gen.query(1)
                elif k == 3:
                    q = p04.query(rng, gen, kb, triples)
                elif k == 4:
                    q = p06.query(rng, gen, kb, triples)
                else:
                    q = p05.query(rng, gen, kb, triples)
            if not q or not valid_query(q):
                continue
            text = vmodel.render_query(q)
            if text in seen:
                continue
            rows = eval_query(kb, q)
            if len(rows) > 2000:
                continue
            if q.get("distinct") and any(not isinstance(x, str) for r in rows
                                         for x in r.values()):
                continue
            if any(it for it in q.get("order_by") or ()) and not all(
                    P06.sortable(rows, v) for _, v in q["order_by"]
                    if not any(isinstance(r.get(v), tuple) for r in rows)):
                continue
        except (TooBig, Unsupported):
            continue
        seen.add(text)
        out.append(q)
    return out


def family(rng, triples, kb, n):
    """Queries that are equal but for one detail of one operation."""
    preds = sorted({t[1] for t in triples if t[2].startswith("<")})
    lits = sorted({t[1] for t in triples
                   if t[2].startswith('"') and "^^" not in t[2]})
    ents = sorted({x for t in triples for x in (t[0], t[2])
                   if x.startswith("<")})
    if len(preds) < 2 or not ents:
        return []
    p, r = rng.sample(preds, 2)
    if vgen.chance(rng, 0.3):
        r = p
    out = []

    def add(where, select=None, **more):
        vs = sorted(vmodel.group_vars(where)[0])
        out.append(dict({"select": select or vs, "where": where}, **more))

    k = rng.randrange(9)
    base = ["t", "?a", p, "?b"]
    pairs = [(x, y) for x in ("?a", "?b", "?f") for y in ("?a", "?b", "?g")
             if x != y and (x != "?f" or y != "?g")]
    if k == 0 and lits:
        w = [["t", "?a", rng.choice(lits), "?b"]]
        if vgen.chance(rng, 0.5):
            w.append(["t", "?a", p, "?c"])
        vals = sorted({x["?b"] for x in eval_group(kb, w)})
        if not vals:
            return []
        words = []
        for _ in range(3):
            x = rng.choice(vals)
            x = x[:x.rfind('"')]
            words.append(x[:rng.randint(2, max(2, len(x)))])
        for x in words:
            text = x[1:].strip()
            if text.isalnum():
                for y in {text, text.upper(), text.lower()}:
                    for flag in ("", "i"):
                        add(w + [["filter", ["regex", "?b", y, flag]]])
        for i in range(1, 4):
            for j in range(3):
                add(w + [["filter", ["prefixes", [
                    ["?b", x] for x in rng.sample(words, i)]]]])
    elif k == 1:
        w = [base, ["t", "?a", r, "?c"]]
        vs = ["?a", "?b", "?c"]
        for _ in range(3 * n):
            gb = rng.sample(vs, rng.choice([1, 1, 2]))
            fn = rng.choice(["count", "count", "concat", "concat", "sample"])
            it = ["agg", fn, rng.random() < 0.5 and fn != "sample",
                  rng.choice(vs), "?n"]
            if fn == "concat":
                it.append(rng.choice([" ", ", ", ";", "-"]))
            add(w, gb + [it], group_by=gb)
    elif k == 2:
        e = [rng.choice(ents) for _ in range(3)]
        for x in e:
            for w in (["t", x, "?a", "?b"], ["t", "?a", "?b", x],
                      ["t", "?a", p, x], ["t", x, p, "?a"]):
                add([w], order_by=[["asc", "?a"]])
                if "?b" in w:
                    add([w], order_by=[["asc", "?b"]])
                    add([w, ["t", "?a" if w[3] == x else "?b", r, "?c"]])
            for y in e:
                add([["t", x, "?a", y]])
                add([["t", x, "?a", y], ["t", x, "?a", rng.choice(ents)]])
    elif k in (3, 4):
        kind = rng.choice(["minus", "optional", "join"])
        more = vgen.chance(rng, 0.4)
        for x, y in pairs:
            t = [["t", x, r, y]]
            if more:
                t.append(["t", x, rng.choice([p, r]), "?h"])
            for b in ([base], [base, ["t", "?a", r, "?c"]],
                      [["t", "?b", p, "?a"]]):
                add(b + (t if kind == "join" else [[kind, t]]))
    elif k == 5:
        for x, y in pairs:
            add([["union", [base], [["t", x, r, y]]]])
            add([["union", [["t", x, r, y]], [base]]])
            if "?a" in (x, y):
                add([["union", [base], [["t", x, r, y]]],
                     ["t", "?a", p, "?c"]])
    elif k == 6:
        path = rng.choice([["iri", p], ["seq", ["iri", p], ["iri", r]],
                           ["alt", ["iri", p], ["iri", r]]])
        tail = rng.choice([[], [["t", "?a", r, "?c"]],
                           [["t", "?c", r, "?b"]]])
        known = sorted({x for t in kb.triples if t[1] in (p, r)
                        for x in (t[0], t[2])})
        e = [rng.choice(known) for _ in range(2)]
        for f in (["plus", path], ["max", path, 2], ["max", path, 3]):
            for x, y in (("?a", "?b"), ("?b", "?a")):
                add([["t", x, f, y]] + tail)
            if not tail:
                for c in e:
                    add([["t", "?a", f, c]])
                    add([["t", c, f, "?a"]])
            else:
                add([["t", "?a", f, "?b"], ["t", "?c", r, "?a"]])
                add([["t", "?a", f, "?b"], ["t", "?b", r, "?c"]])
    elif k == 7:
        e = [rng.choice(ents) for _ in range(3)]
        for _ in range(3 * n):
            rows = [[rng.choice(e), rng.choice(e)]
                    for _ in range(rng.choice([1, 1, 2]))]
            names = rng.choice([["?a", "?b"], ["?b", "?a"]])
            add([["values", names, rows]] +
                rng.choice([[], [base], [["t", "?a", p, "?c"]]]))
    else:
        w = [base] + rng.choice([[], [["t", "?a", r, "?c"]]])
        vs = sorted(vmodel.group_vars(w)[0])
        for _ in range(3 * n):
            sel = rng.sample(vs, rng.randint(1, len(vs)))
            if vgen.chance(rng, 0.5):
                add(w, sel, distinct=True)
            else:
                ob = [[rng.choice(["asc", "desc"]), v] for v in sel]
                add(w, vs, order_by=ob, limit=rng.choice([None, 2, 5]))
    good, seen = [], set()
    rng.shuffle(out)
    for q in out:
        if len(good) >= n:
            break
        text = vmodel.render_query(q)
        if text in seen or not valid_query(q):
            continue
        seen.add(text)
        try:
            rows = eval_query(kb, q)
        except (TooBig, Unsupported):
            continue
        if len(rows) > 2000 or q.get("order_by") and not all(
                P06.sortable(rows, v) for _, v in q["order_by"]):
            continue
        good.append(q)
    return good
