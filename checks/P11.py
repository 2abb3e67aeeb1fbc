import vturtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied
from vturtle import Graph, Writer, canonical, colour, flatten, parse_output

MARK = "http://mark/"
QUERY = "SELECT ?s ?p ?o WHERE { ?s <%sp> <%so> . ?s ?p ?o }" % (MARK, MARK)


def marked(triples):
    """Gives every subject a triple by which it can be found."""
    res = list(triples)
    done = set()
    for s, _, _ in triples:
        if tuple(s) not in done:
            done.add(tuple(s))
            res.append([s, ["i", MARK + "p"], ["i", MARK + "o"]])
    return res


def mark_trees(trees):
    """The same on the level of the trees that are written."""
    def walk(t):
        s, pos = t
        return [s, [[p, [["tree", walk(o[1])] if o[0] == "tree" else o
                         for o in objs]] for p, objs in pos] +
                [[MARK + "p", [["i", MARK + "o"]]]]]
    return [walk(t) for t in trees]


def unnest(tree):
    """Labels for the blank nodes (the fast parser for ASCII prefixes does
    not know property lists of blank nodes)."""
    s, pos = tree
    if s[0] == "n":
        s = ["b", "anon%d" % s[1]]
    res = [[s, []]]
    for p, objs in pos:
        new = []
        for o in objs:
            if o[0] == "tree":
                inner = unnest(o[1])
                new.append(inner[0][0])
                res += inner
            else:
                new.append(o)
        res[0][1].append([p, new])
    return res


def spell(rng, trees, fmt):
    if fmt == "ascii":
        trees = [t for tree in trees for t in unnest(tree)]
    if fmt == "nt":
        return vturtle.ntriples(rng, flatten(trees))
    spaces = ["http://x/", "http://x/y#", "urn:z:", "http://e.org/a/", MARK]
    return Writer(rng, spaces, relaxed=fmt == "ascii").document(trees)


class P11(Spec):
    id = "P11"
    rule = ("a document with at least three triples whose answer was "
            "compared; identified by the document's text and the format")
    cases = {"quick": 800, "thorough": 18000}

    def generate(self, rng, i, tier):
        g = Graph(rng, rng.choice([1, 2, 4, 8, 15]))
        trees = mark_trees(g.trees)
        docs = [[f, spell(rng, trees, f)]
                for f in ("ttl", "ascii", "mmap", "nt")]
        return {"trees": trees, "docs": docs, "seed": rng.randrange(1 << 30)}

    def run(self, env, case):
        out = Outcome()
        exp = self.expected(case["trees"])
        for fmt, text in case["docs"]:
            self.one(env, out, case, fmt, text, exp)
            if out.failure:
                break
        return out

    def expected(self, trees):
        def key(t):
            c = canonical(t)
            if c is None:
                return ("blank", t[0], t[1])
            if isinstance(c, tuple) and c[2] in ("-0", "0"):
                c = c[:2] + ("0",)
            return ("term", c)
        ts = {(key(s), key(p)[1], key(o)) for s, p, o in flatten(trees)}
        return colour(ts)

    def one(self, env, out, case, fmt, text, exp):
        settings = {"ascii-prefixes-only": fmt == "ascii"}
        fail = dict(fmt=fmt, text=text)
        try:
            ix = env.tools.build_index(
                text, fmt={"ascii": "ttl"}.get(fmt, fmt), settings=settings,
                args=["--no-patterns"])
        except IndexFailed as e:
            out.fail("index build failed",
                     detail=e.out[e.out.find("ERROR"):][:1500], **fail)
            return
        sv = None
        try:
            sv = ix.serve(args=["--no-patterns"])
            r = sv.query(QUERY, send=100000)
            out.evaluations += 1
            if r.get("status") != "OK":
                out.fail("error status", detail=str(r)[:1500], **fail)
                return
            got = []
            for s, p, o in r["res"]:
                # the engine's own triples for language tags (known finding
                # of P01)
                if p.startswith("@") or "langtag" in p:
                    out.count("triples for language tags left out")
                    continue
                got.append(tuple(
                    ("blank", x) if parse_output(x) is None
                    else ("term", parse_output(x)) for x in (s, p, o)))
            act = colour([(s, p[1], o) for s, p, o in set(got)])
            if len(set(got)) != len(got):
                out.fail("a triple is stored twice", detail=str(got)[:500],
                         **fail)
            elif act != exp:
                a, e = set(act), set(exp)
                out.fail("wrong triples", detail="missing %s; unexpected %s"
                         % (sorted(e - a)[:5], sorted(a - e)[:5]), **fail)
            elif len(exp) >= 3:
                out.nontrivial.append(digest([fmt, text]))
                if not out.samples:
                    out.samples.append({"format": fmt, "document":
                                        text[:600], "triples": len(exp)})
            out.count("documents " + fmt)
            out.count("triples", len(exp))
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500], **fail)
        finally:
            if sv:
                sv.stop()
            ix.close()

    def shrink(self, case, fail):
        import random
        if len(case["docs"]) > 1:
            yield dict(case, docs=[d for d in case["docs"]
                                   if d[0] == fail["fmt"]])
            return
        fmt = case["docs"][0][0]
        for trees in self.smaller(case["trees"]):
            for k in range(6):
                yield dict(case, trees=trees, docs=[[fmt, spell(
                    random.Random(case["seed"] + k), trees, fmt)]])

    def smaller(self, trees):
        for ts in ddmin_lists(trees):
            if ts:
                yield ts
        for i, (s, pos) in enumerate(trees):
            for p2 in ddmin_lists(pos):
                if p2 and p2[-1][0] == MARK + "p":
                    yield trees[:i] + [[s, p2]] + trees[i + 1:]
            for j, (p, objs) in enumerate(pos):
                for o2 in ddmin_lists(objs):
                    if o2:
                        yield trees[:i] + [[s, pos[:j] + [[p, o2]] +
                                            pos[j + 1:]]] + trees[i + 1:]
                for k, o in enumerate(objs):
                    if o[0] == "tree":
                        alts = [["tree", t[0]]
                                for t in map(list, zip(self.smaller([o[1]])))]
                        alts = [["tree", x[0]] for x in self.smaller([o[1]])]
                    elif o[0] in "lgt":
                        alts = [[o[0], "".join(x)] + o[2:]
                                for x in ddmin_lists(list(o[1]))]
                    else:
                        continue
                    for a in alts:
                        yield trees[:i] + [[s, pos[:j] + [
                            [p, objs[:k] + [a] + objs[k + 1:]]] +
                            pos[j + 1:]]] + trees[i + 1:]


SPEC = P11()
