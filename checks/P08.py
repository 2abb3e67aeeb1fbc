"""SPARQL+Text: words and entities in text records, joined with the KB."""
import itertools
from collections import Counter

import vgen
from vmodel import to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied

WORDS = ["alpha", "alphabet", "alphas", "alpine", "beta", "betas", "better",
         "go", "a", "1990", "199", "gold", "golden", "zoo", "zebra", "nobel",
         "nobelprize", "Rise", "RISEN", "über", "straße", "цена", "q"]
ALL = 100000


def spell_word(rng, w):
    return w if rng.random() < 0.7 else rng.choice([w.upper(), w.capitalize()]
                                                   if w.isascii() else [w])


class Text:
    """Reference model of words file, documents file and KB vocabulary."""

    def __init__(self, case):
        self.triples = sorted({tuple(t) for t in case["triples"]})
        known = {x for t in self.triples for x in t}
        self.ctx = {}
        for cid, lines in case["contexts"]:
            words, ents = self.ctx.setdefault(cid, (Counter(), Counter()))
            for w, is_ent, score in lines:
                if not is_ent:
                    words[w.lower()] += score
                elif w in known:
                    ents[w] += score
        self.docs = sorted((d, "record %d" % d) for d in case["docs"])
        self.excerpts = {c: self.excerpt(c) for c in self.ctx}

    def excerpt(self, cid):
        for d, text in self.docs:
            if d >= cid:
                return text
        return ""

    def term_score(self, cid, term):
        """None if the record does not contain the term."""
        words, ents = self.ctx[cid]
        if term.startswith("<"):
            return ents.get(term) if term in ents else None
        term = term.lower()
        if term.endswith("*"):
            hits = [s for w, s in words.items() if w.startswith(term[:-1])]
            return sum(hits) if hits else None
        return words.get(term) if term in words else None

    def clique(self, c):
        """-> rows (cid, score or None, entity tuple, rank score)."""
        terms = c["words"] + [e for e in c["ents"] if e[0] == "<"]
        vs = [e for e in c["ents"] if e[0] == "?"]
        hits = {}
        for cid in sorted(self.ctx):
            s = [self.term_score(cid, t) for t in terms]
            if None not in s:
                hits[cid] = sum(s)
        if not vs:
            prefix = any(w.endswith("*") for w in c["words"])
            return [], {(): [(cid, None if prefix else s, 0)
                             for cid, s in hits.items()]}
        groups = {}
        for cid in hits:
            ents = sorted(self.ctx[cid][1])
            for key in itertools.product(ents, repeat=len(vs)):
                groups.setdefault(key, []).append(
                    [cid, 0, self.ctx[cid][1][key[0]]])
        return vs, {k: [(cid, len(v), r) for cid, _, r in v]
                    for k, v in groups.items()}


def kb_join(triples, patterns, binding):
    if not patterns:
        yield binding
        return
    s, p, o = patterns[0]
    for t in triples:
        if t[1] != p:
            continue
        b = dict(binding)
        ok = True
        for name, val in ((s, t[0]), (o, t[2])):
            if name[0] == "?":
                if b.setdefault(name, val) != val:
                    ok = False
            elif name != val:
                ok = False
        if ok:
            yield from kb_join(triples, patterns[1:], b)


def holds(f, b):
    op, v, e = f
    return (b[v] == e) == (op == "=")


def connected_order(triples, bound):
    """Patterns ordered such that each shares a variable with earlier ones."""
    left, res, bound = list(triples), [], set(bound)
    while left:
        for t in left:
            if t[0] in bound or t[2] in bound:
                break
        else:
            t = left[0]
        left.remove(t)
        res.append(t)
        bound |= {x for x in (t[0], t[2]) if x[0] == "?"}
    return res


def render(q):
    parts = []
    for c in q["cliques"]:
        t = c["t"]
        words = [c["words"]] if c.get("together") else [[w]
                                                        for w in c["words"]]
        for ws in words:
            if ws:
                parts.append('%s ql:contains-word "%s"' % (t, " ".join(ws)))
        for e in c["ents"]:
            parts.append("%s ql:contains-entity %s" % (t, e))
    parts += ["%s %s %s" % tuple(t) for t in q["triples"]]
    order = q.get("shuffle") or range(len(parts))
    parts = [parts[i] for i in order if i < len(parts)]
    sel = " ".join(q["select"])
    s = "PREFIX ql: <QLever-internal-function/> SELECT %s%s WHERE { %s" % (
        "DISTINCT " if q.get("distinct") else "", sel, " . ".join(parts))
    for f in q.get("filters", []):
        s += " . FILTER(%s %s %s)" % (f[1], f[0], f[2])
    s += " }"
    if q.get("group"):
        s += " GROUP BY " + q["group"]
    if q.get("order"):
        s += " ORDER BY DESC(%s)" % q["order"]
    if q.get("limit") is not None:
        s += " LIMIT %d" % q["limit"]
    if q.get("k"):
        s += " TEXTLIMIT %d" % q["k"]
    return s


def gen_runs(rng, ents):
    """Long runs of records that only differ in their ids, with lengths near
    the group sizes of the compression."""
    same = {}
    for w in WORDS:
        same.setdefault(w[:4].lower(), []).append(w)
    words = rng.choice(sorted(v for v in same.values() if len(v) > 1))
    cid, out = rng.choice([0, 1, 7]), []
    w, s, g, e = words[0], 1, 1, ents[0]
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([30, 60, 120, 240]) + rng.randint(-4, 4)
        for _ in range(n):
            out.append([cid, [[w, 0, s], [e, 1, s]]])
            cid += g
        if rng.random() < 0.7:
            w = rng.choice(words)
        if rng.random() < 0.7:
            s = rng.choice([1, 2, 9, 3000])
        if rng.random() < 0.7:
            cid += rng.choice([1, 5, 70000])
        if rng.random() < 0.3:
            g = rng.choice([1, 2, 3])
        if rng.random() < 0.5:
            e = rng.choice(ents)
        if rng.random() < 0.7:
            out.append([cid, [[rng.choice(words), 0, rng.choice([1, 7])],
                              [rng.choice(ents), 1, 2]]])
            cid += 1
    return out


def gen_contexts(rng, ents):
    if rng.random() < 0.1:
        return gen_runs(rng, ents)
    n = rng.choice([1, 2, 4, 8, 8, 15, 30, 150, 500])
    nw = rng.choice([1, 2, 5, len(WORDS)])
    words = rng.sample(WORDS, nw)
    if rng.random() < 0.3:
        common = rng.choice(words)
    else:
        common = None
    scores = rng.choice([[1], [1], [1, 2, 3], [0, 1, 5, 100, 3000]])
    ent_rate = rng.choice([0.1, 0.5, 0.9])
    cid, out = rng.choice([0, 0, 1, 7]), []
    gaps = rng.choice([[1], [1], [1, 1, 2], [1, 3, 50], [1, 1000]])
    for _ in range(n):
        lines = []
        for _ in range(vgen.pick(rng, [0, 1, 1, 2, 3, 5])):
            lines.append([spell_word(rng, rng.choice(words)), 0,
                          rng.choice(scores)])
        if common and rng.random() < 0.9:
            lines.append([common, 0, scores[0]])
        if rng.random() < ent_rate:
            for _ in range(vgen.pick(rng, [1, 1, 2, 3, 4])):
                lines.append([rng.choice(ents), 1, rng.choice(scores)])
        rng.shuffle(lines)
        if lines:
            out.append([cid, lines])
        cid += rng.choice(gaps)
    return out


def gen_query(rng, case):
    used = sorted({w for _, ls in case["contexts"]
                   for w, e, _ in ls if not e})
    ents = case["ents"]

    def word():
        w = rng.choice(used) if used and rng.random() < 0.85 else \
            rng.choice(WORDS)
        if rng.random() < 0.3 and len(w) >= 4 and w.isascii():
            w = w[:rng.randint(4, len(w))] + "*"
        return spell_word(rng, w)

    def clique(t, vs):
        ws = []
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
            ws.append(word())
        if rng.random() < 0.35:
            # Words of one record, so that more than one can match.
            ls = [w for w, e, _ in rng.choice(case["contexts"])[1] if not e]
            if ls:
                ws = rng.sample(ls, rng.randint(1, min(4, len(ls))))
        ws = list({w.lower(): w for w in ws}.values())
        es = list(vs)
        if rng.random() < 0.2:
            es.append(rng.choice(ents))
            if rng.random() < 0.4:
                ws = []
        rng.shuffle(es)
        return {"t": t, "words": ws, "ents": es,
                "together": rng.random() < 0.5}

    nv = rng.choice([0, 1, 1, 1, 2, 2, 3])
    big = len(case["contexts"]) > 100
    if big:
        nv = min(nv, 2)
    vs = ["?x", "?y", "?w"][:nv]
    cl = [clique("?t", vs)]
    two = nv and not big and rng.random() < 0.2
    if two:
        cl.append(clique("?u", [vs[0]] + (["?v"] if rng.random() < 0.3
                                          else [])))
        vs = vs + (["?v"] if "?v" in cl[1]["ents"] else [])
    triples, names, filters = [], list(vs), []
    preds = ["<p0>", "<p1>", "<p2>"]
    if vs:
        free = ["?k", "?l", "?m"]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            v = rng.choice(names)
            o = free.pop() if rng.random() < 0.6 else rng.choice(ents)
            triples.append([v, rng.choice(preds), o] if rng.random() < 0.6
                           else [o, rng.choice(preds), v])
            if o[0] == "?":
                names.append(o)
        if rng.random() < 0.2:
            filters.append([rng.choice(["!=", "="]), rng.choice(names),
                            rng.choice(ents)])
    known = {x for t in case["triples"] for x in t}
    filters = [f for f in filters if f[2] in known]
    q = {"cliques": cl, "triples": triples, "filters": filters}
    q["k"] = ALL if two else rng.choice([None, None, 1, 2, 3, ALL, ALL])
    form = rng.random()
    if q["k"] == ALL and vs and form < 0.12:
        g = rng.choice(names)
        q["group"] = g
        q["select"] = [g, "(COUNT(?t) as ?c)"]
    else:
        sel = []
        for c in cl:
            sel.append(rng.choice(["%s", "TEXT(%s)"]) % c["t"])
            sel.append("SCORE(%s)" % c["t"])
        sel += names
        if q["k"] == ALL and form < 0.3 and vs:
            sel = rng.sample(names, rng.randint(1, len(names)))
            q["distinct"] = rng.random() < 0.5
        rng.shuffle(sel)
        q["select"] = sel
        if "SCORE(?t)" in sel and rng.random() < 0.3:
            q["order"] = "SCORE(?t)"
        if rng.random() < 0.15:
            q["limit"] = rng.randint(0, 6)
    order = list(range(20))
    rng.shuffle(order)
    q["shuffle"] = order
    return q


def related(rng, q):
    """A query that shares operations with q, None if there is no."""
    q = dict(q, shuffle=rng.sample(range(20), 20))
    if rng.random() < 0.5:
        if q.get("group") or len(q["cliques"]) > 1 or \
                "SCORE(?t)" not in q["select"]:
            return None
        q["k"] = rng.choice([k for k in (None, 1, 2, 3, ALL) if k != q["k"]])
        return q
    vs = [e for e in q["cliques"][0]["ents"] if e[0] == "?"]
    n = [i for i, t in enumerate(q["triples"]) if t[0] in vs or t[2] in vs]
    if len(vs) < 2 or not n:
        return None
    n = rng.choice(n)
    t = list(q["triples"][n])
    i = 0 if t[0] in vs else 2
    t[i] = rng.choice([v for v in vs if v != t[i]])
    if t[0] == t[2]:
        return None
    q["triples"] = q["triples"][:n] + [t] + q["triples"][n + 1:]
    return q


class P08(Spec):
    id = "P08"
    rule = ("a query with a non-empty reference answer; identified by query "
            "text and the text collection")
    cases = {"quick": 900, "thorough": 24000}

    def generate(self, rng, i, tier):
        ne = rng.choice([2, 5, 9])
        ents = ["<e%d>" % j for j in range(ne)] + ["<A>", "<zz>"]
        triples = [["<e0>", "<p0>", "<e1>"], ["<e1>", "<p1>", "<e0>"],
                   ["<e0>", "<p2>", "<e0>"]]
        for _ in range(rng.choice([0, 4, 10, 25])):
            triples.append([rng.choice(ents), rng.choice(
                ["<p0>", "<p1>", "<p2>"]), rng.choice(ents)])
        if rng.random() < 0.4:
            triples += [["<b%d>" % j, "<p0>", "<e0>"]
                        for j in range(rng.randint(1, 30))]
        case = {"triples": triples, "ents": ents}
        ctx = []
        while not any(not e for _, ls in ctx for _, e, _ in ls):
            ctx = gen_contexts(rng, ents)
        case["contexts"] = ctx
        ids = [c for c, _ in ctx]
        k = rng.random()
        if k < 0.75:
            case["docs"] = ids
        elif k < 0.9:
            case["docs"] = sorted(set(rng.sample(
                ids, rng.randint(1, len(ids))) + [ids[-1]]))
        else:
            case["docs"] = ids[:rng.randint(1, len(ids))]
        case["queries"] = [gen_query(rng, case)
                           for _ in range(rng.choice([10, 25]))]
        case["keep"] = rng.random() < 0.5   # results in the cache
        if case["keep"]:
            for q in list(case["queries"]):
                new = related(rng, q) if rng.random() < 0.6 else None
                if new:
                    case["queries"].append(new)
        case["args"] = rng.choice([[], [], ["-A"]])
        return case

    def run(self, env, case):
        out = Outcome()
        words = "".join("%s\t%d\t%d\t%d\n" % (w, e, c, s)
                        for c, ls in case["contexts"] for w, e, s in ls)
        text = Text(case)
        docs = "".join("%d\t%s\n" % d for d in text.docs)
        try:
            ix = env.tools.build_index(to_turtle(case["triples"]),
                                       text=(words, docs))
        except IndexFailed as e:
            return out.fail("index build failed", detail=str(e)[:1500])
        sv = None
        try:
            sv = ix.serve(args=["-t"])
            for n, q in enumerate(case["queries"]):
                s = render(q)
                out.evaluations += 1
                try:
                    r = sv.query(s, send=1000000,
                                 clear=not case.get("keep"))
                except HttpError as e:
                    return out.fail("no answer", at=n, query=s,
                                    detail=str(e)[:500])
                if r.get("status") != "OK":
                    return out.fail("error", at=n, query=s,
                                    detail=str(r.get("exception"))[:500])
                msg, size = self.judge(text, q, r)
                if msg:
                    return out.fail(msg[0], at=n, query=s, detail=msg[1])
                out.count("%d variables" % (len(self.vars(q))))
                if size:
                    out.count("non-empty")
                    out.nontrivial.append(digest([s, case["contexts"]]))
                    if len(q["cliques"]) > 1:
                        out.count("two records")
                    if q["triples"]:
                        out.count("with triples")
                    if len(out.samples) < 2:
                        out.samples.append("%s -> %d rows" % (s, size))
        except ServerDied as e:
            return out.fail("server died", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    @staticmethod
    def vars(q):
        return {e for c in q["cliques"] for e in c["ents"] if e[0] == "?"}

    def judge(self, text, q, r):
        """-> (message or None, number of reference rows)"""
        rows = [tuple(x) for x in r["res"]]
        k = q.get("k") or 1
        # Rows with all possible records, to be grouped by everything else.
        full = [{}]
        prefix = False
        for c in q["cliques"]:
            vs, groups = text.clique(c)
            prefix |= not vs and any(w.endswith("*") for w in c["words"])
            nxt = []
            for b in full:
                for key, recs in groups.items():
                    d = dict(b)
                    if any(d.setdefault(v, e) != e
                           for v, e in zip(vs, key)):
                        continue
                    for cid, score, rank in recs:
                        nxt.append(dict(d, **{
                            c["t"]: cid, "SCORE(%s)" % c["t"]: score,
                            "rank": rank, "n": len(recs) if vs else 0}))
            full = nxt
        full = [dict(b2, **b) for b in full for b2 in kb_join(
            text.triples, connected_order(
                q["triples"], [v for v in b if v[0] == "?"]),
            {v: e for v, e in b.items() if v[0] == "?"
             and isinstance(e, str)})
            if all(holds(f, b2) for f in q["filters"])]
        if q.get("group"):
            cnt = Counter(b[q["group"]] for b in full)
            want = Counter((g, str(n)) for g, n in cnt.items())
            got = Counter((a, str(b).split('"')[1] if '"' in str(b)
                           else str(b)) for a, b in rows)
            return self.sets(want, got, q), len(want)

        def cell(b, col):
            if col.startswith("TEXT("):
                col = col[5:-1]
            if col in [c["t"] for c in q["cliques"]]:
                return text.excerpts[b[col]]
            v = b[col]
            return v if isinstance(v, str) else None if v is None else str(v)

        cols = q["select"]
        want = Counter(tuple(cell(b, c) for c in cols) for b in full)
        if prefix:
            # Neither the number of rows nor the score is fixed if several
            # words of a record match.
            keep = [i for i, c in enumerate(cols) if c != "SCORE(?t)"]
            want = Counter({tuple(w[i] for i in keep) for w in want})
            got = Counter({tuple(g[i] for i in keep) for g in rows})
            if q.get("limit") is not None:
                if set(got) - set(want) or len(rows) > q["limit"]:
                    return ("wrong rows", self.show(want, got)), len(want)
                return None, len(want)
            return self.sets(want, got, q), len(want)
        if q.get("distinct"):
            want = Counter(set(want))
        got = Counter(rows)
        if q.get("order") and not prefix:
            at = cols.index(q["order"])
            s = [int(x[at]) for x in rows]
            if s != sorted(s, reverse=True):
                return ("wrong order", str(s[:50])), len(want)
        if any(b["n"] > k for b in full):
            return self.limited(text, q, k, full, cell, rows), len(want)
        total = sum(want.values())
        if q.get("limit") is not None:
            if len(rows) != min(q["limit"], total) or got - want:
                return ("wrong rows with limit", self.show(want, got)), total
            if q.get("order"):
                best = sorted((int(w[at]) for w in want.elements()),
                              reverse=True)[:q["limit"]]
                if s != best:
                    return ("wrong rows with order and limit", str(
                        [s, best])), total
            return None, total
        return self.sets(want, got, q), total

    def limited(self, text, q, k, full, cell, rows):
        """One record variable, at most k records per entity combination."""
        cols = q["select"]
        rec = [i for i, c in enumerate(cols) if c in ("?t", "TEXT(?t)")][0]
        rest = [i for i in range(len(cols)) if i != rec]
        allowed, ranks, mult = {}, {}, {}
        for b in full:
            row = tuple(cell(b, c) for c in cols)
            key = tuple(row[i] for i in rest)
            allowed.setdefault(key, Counter())[row[rec]] += 1
            ranks.setdefault(key, []).append((b["rank"], b["?t"]))
        got = {}
        for x in rows:
            got.setdefault(tuple(x[i] for i in rest), Counter())[x[rec]] += 1
        total = 0
        for key, recs in allowed.items():
            n = sum(recs.values())
            # Several rows of the KB may look the same only if columns are
            # hidden, which is not the case here.
            m = min(n, k)
            total += m
            if q.get("limit") is None and \
                    sum(got.get(key, Counter()).values()) != m:
                return "wrong number of records", str(
                    [key, m, got.get(key)])[:800]
        for key, recs in got.items():
            if key not in allowed or recs - allowed[key]:
                return "wrong rows", str([key, recs, allowed.get(key)])[:800]
        if q.get("limit") is not None:
            if len(rows) != min(total, q["limit"]):
                return "wrong number of rows with limit", str(
                    [len(rows), total])
            return None
        c = q["cliques"][0]
        terms = len(c["words"]) + len([e for e in c["ents"] if e[0] == "<"])
        vs = [e for e in c["ents"] if e[0] == "?"]
        ex = [text.excerpts[cid] for cid in text.ctx]
        if len(vs) == 1 and terms <= 2 and len(set(ex)) == len(ex):
            ids = {e: cid for cid, e in text.excerpts.items()}
            for key, rs in ranks.items():
                best = sorted((r for r, _ in rs), reverse=True)[:k]
                score = {cid: r for r, cid in rs}
                mine = sorted((score[ids[e]] for e in got[key]), reverse=True)
                if mine != best:
                    return "not the records with the highest scores", str(
                        [key, mine, best])
        return None

    @staticmethod
    def show(want, got):
        return str({"missing": list((want - got).items())[:5],
                    "too much": list((got - want).items())[:5],
                    "sizes": [sum(want.values()), sum(got.values())]})[:900]

    def sets(self, want, got, q):
        if want != got:
            return "wrong rows", self.show(want, got)
        return None

    def shrink(self, case, fail):
        at = fail.get("at")
        if at is not None and len(case["queries"]) > 1:
            yield dict(case, queries=[case["queries"][at]])
            if not case.get("keep"):
                return
            yield dict(case, keep=False)
            qs = case["queries"][:at]
            for x in ddmin_lists(qs):
                yield dict(case, queries=x + [case["queries"][at]])
        for c in ddmin_lists(case["contexts"]):
            if not any(not e for _, ls in c for _, e, _ in ls):
                continue
            ids = [x for x, _ in c]
            yield dict(case, contexts=c, docs=ids)
            yield dict(case, contexts=c)
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)
        for n, (cid, ls) in enumerate(case["contexts"]):
            for l in ddmin_lists(ls):
                if l:
                    c = list(case["contexts"])
                    c[n] = [cid, l]
                    if any(not e for _, x in c for _, e, _ in x):
                        yield dict(case, contexts=c)
        for d in ddmin_lists(case["docs"]):
            if d:
                yield dict(case, docs=d)
        if len(case["queries"]) == 1:
            q = case["queries"][0]
            for k in ("order", "limit", "shuffle", "distinct"):
                if q.get(k) is not None:
                    yield dict(case, queries=[dict(q, **{k: None})])
            for f in ddmin_lists(q["filters"]):
                yield dict(case, queries=[dict(q, filters=f)])


SPEC = P08()
