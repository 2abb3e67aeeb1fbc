import json

import vgen
import vmodel
import vpool
from vmodel import KB, eval_query, render_query, to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vsem import compare, valid_query
from vserver import HttpError, IndexFailed, ServerDied


def gen_config(rng):
    c = {"format": rng.choice(["ttl", "ttl", "nt", "mmap", "tsv"]),
         "args": [], "settings": {}}
    s = c["settings"]
    if rng.random() < 0.35:
        c["args"].append("-l")
    if rng.random() < 0.2:
        c["args"].append("-N")
    if rng.random() < 0.5:
        c["args"].append("--no-patterns")
    if rng.random() < 0.35:
        s["prefixes-external"] = rng.choice(
            [["<e"], ["<e1", "<T"], ["<p"], ["<"], ["<x/"]])
    if rng.random() < 0.3:
        s["languages-internal"] = rng.choice([["en"], ["de", "fr"], []])
    if rng.random() < 0.5:
        s["num-triples-per-partial-vocab"] = rng.choice([1, 2, 3, 7, 20, 100])
    if rng.random() < 0.5:
        s["parser-batch-size"] = rng.choice([1, 2, 3, 10, 50])
    if rng.random() < 0.3:
        s["locale"] = {"language": rng.choice(["en", "de", "fr"]),
                       "country": rng.choice(["US", "DE", "FR"]),
                       "ignore-punctuation": rng.random() < 0.5}
    if rng.random() < 0.3:
        s["ascii-prefixes-only"] = rng.random() < 0.5
    c["limits"] = {}
    if rng.random() < 0.5:
        c["limits"]["FILE_BUFFER_SIZE"] = rng.choice([7, 50, 300, 1000])
        c["limits"]["PARSER_MIN_TRIPLES_AT_ONCE"] = rng.choice([1, 2, 10])
    if rng.random() < 0.5:
        c["limits"]["VOCABULARY_BUFFER_SIZE"] = rng.choice([1, 2, 3, 10])
    if rng.random() < 0.5:
        c["limits"]["USE_BLOCKS_INDEX_SIZE_TRESHOLD"] = rng.choice([0, 1, 5])
        c["limits"]["DISTINCT_LHS_PER_BLOCK"] = rng.choice([1, 2, 3])
    if rng.random() < 0.4:
        c["limits"]["THRESHOLD_RELATION_CREATION"] = rng.choice([0, 1, 3, 10])
    return c


def document(triples, fmt):
    if fmt != "tsv":
        return to_turtle(triples)
    return "".join("%s\t%s\t%s\t.\n" % tuple(t) for t in triples)


def var_pred(x):
    """Does the query contain a triple with a variable as predicate?"""
    if isinstance(x, dict):
        return any(var_pred(y) for y in x.values())
    if isinstance(x, list):
        return (len(x) == 4 and x[0] == "t" and vmodel.is_var(x[2])) or \
            any(var_pred(y) for y in x)
    return False


def external(c):
    """Can the index have terms in the vocabulary on disk?"""
    return "-l" in c["args"] or "prefixes-external" in c["settings"] or \
        "languages-internal" in c["settings"]


def by_order(x):
    """Does the query compare IRIs or strings by their order?

    Terms in the vocabulary on disk are ordered after all others, filters
    look constants up in memory only (see known-findings.txt)."""
    if isinstance(x, dict):
        return bool(x.get("order_by")) or any(by_order(y) for y in x.values())
    if isinstance(x, list):
        if x and x[0] == "cmp":
            return isinstance(x[3], str) and "^^" not in x[3]
        if x and (x[0] == "prefixes" or
                  x[0] == "regex" and x[2].startswith("^")):
            return True
        if x and x[0] == "agg" and x[1] in ("min", "max"):
            return True
        return any(by_order(y) for y in x)
    return False


class P12(Spec):
    id = "P12"
    rule = ("a query with a non-empty reference answer asked to an index that "
            "was built with a configuration other than the default; "
            "identified by query text, number of triples and configuration")
    cases = {"quick": 400, "thorough": 10000}

    def generate(self, rng, i, tier):
        langs = i % 2 == 0
        triples = vpool.mixed_kb(rng, langs=langs)
        queries = vpool.pool(rng, triples, 8)
        if langs:
            queries = [q for q in queries if not var_pred(q)]
        long = [["<e%d>" % rng.randrange(6), "<long>",
                 '"%s %d"' % (vgen.pick(rng, "abz") * rng.randint(1000, 1040),
                              rng.randrange(4))]
                for _ in range(rng.choice([0, 0, 2, 5]))]
        triples += [list(t) for t in {tuple(t) for t in long}]
        triples.sort()
        rng.shuffle(triples)
        queries += self.lookups(rng, triples)
        case = {"triples": triples, "queries": queries,
                "configs": [gen_config(rng) for _ in range(3)]}
        if rng.random() < 0.4:
            # long names, so that the vocabulary compresses their prefixes
            for c, ns in (("e", "http://example.org/entity/"),
                          ("p", "http://example.org/prop/direct/"),
                          ("T", "http://example.org/entity/T")):
                if rng.random() < 0.7:
                    case = json.loads(json.dumps(case).replace(
                        '"<' + c, '"<' + ns + c))
        return case

    def lookups(self, rng, triples):
        """Every triple has to be found by each of its terms."""
        out = []
        for s, p, o in rng.sample(triples, min(len(triples), 12)):
            k = rng.randrange(3)
            if k == 0:
                w, v = [["t", s, p, "?v0"]], ["?v0"]
            elif k == 1:
                w, v = [["t", "?v0", p, o]], ["?v0"]
            else:
                w, v = [["t", "?v0", p, o], ["t", "?v0", p, "?v1"]], \
                    ["?v0", "?v1"]
            out.append({"select": v, "where": w})
        return out

    def run(self, env, case):
        out = Outcome()
        kb = KB(case["triples"])
        ref = [eval_query(kb, q) for q in case["queries"]]
        for c in case["configs"]:
            if not out.failure:
                self.one(env, out, case, c, ref)
        return out

    def one(self, env, out, case, c, ref):
        try:
            ix = env.tools.build_index(
                document(case["triples"], c["format"]), fmt=c["format"],
                args=c["args"], settings=c["settings"], limits=c.get("limits"))
        except IndexFailed as e:
            out.fail("index build failed", config=c,
                     detail=e.out[e.out.find("ERROR"):][:1500])
            return
        sv = None
        try:
            sv = ix.serve(args=["--no-patterns"] if "--no-patterns" in
                          c["args"] else [])
            for q, rows in zip(case["queries"], ref):
                if external(c) and by_order(q) and not case.get("known"):
                    out.count("left out: order of terms on disk")
                    continue
                text = render_query(q)
                r = sv.query(text, send=100000)
                out.evaluations += 1
                if r.get("status") != "OK":
                    out.fail("error status", config=c, sparql=text,
                             detail=str(r.get("exception"))[:1000])
                    continue
                msg = compare(q, rows, r["res"])
                if msg:
                    out.fail("wrong answer", config=c, sparql=text,
                             detail=msg + " " + str(c))
                elif rows:
                    out.nontrivial.append(digest(
                        [text, len(case["triples"]), c]))
                    if not out.samples:
                        out.samples.append({"config": c, "sparql": text,
                                            "rows": len(rows)})
            out.count("indices " + c["format"])
            for k in c["settings"]:
                out.count("with " + k)
            for k in c["args"] + list(c.get("limits", {})):
                out.count("with " + k)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", config=c, detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()

    def shrink(self, case, fail):
        c = fail["config"]
        if len(case["configs"]) > 1:
            yield dict(case, configs=[c])
            return
        for k in list(c["settings"]):
            yield dict(case, configs=[dict(c, settings={
                x: y for x, y in c["settings"].items() if x != k})])
        for k in list(c.get("limits", {})):
            yield dict(case, configs=[dict(c, limits={
                x: y for x, y in c["limits"].items() if x != k})])
        for a in c["args"]:
            yield dict(case, configs=[dict(c, args=[
                x for x in c["args"] if x != a])])
        if c["format"] != "ttl":
            yield dict(case, configs=[dict(c, format="ttl")])
        qs = case["queries"]
        if len(qs) > 1:
            for q in qs:
                if render_query(q) == fail.get("sparql"):
                    yield dict(case, queries=[q])
            for q in ddmin_lists(qs):
                yield dict(case, queries=q)
        else:
            for q in qs:
                for q2 in vgen.shrink_query(q):
                    if valid_query(q2):
                        yield dict(case, queries=[q2])
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)


SPEC = P12()
