import P11
from P11 import MARK, QUERY, mark_trees, spell
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied
from vturtle import Graph, colour, parse_output


def mutate(rng, text):
    """A document that is probably not well-formed."""
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(text) + 1)
        k = rng.randrange(6)
        if k == 0:
            text = text[:i] + text[i + rng.choice([1, 1, 2, 5]):]
        elif k == 1:
            text = text[:i] + rng.choice(list(" .;,\"'<>#@^[]():\n\\_1e+-")) \
                + text[i:]
        elif k == 2:
            text = text[:i]
        elif k == 3:
            j = min(len(text), i + rng.randint(1, 20))
            text = text[:j] + text[i:j] + text[j:]
        elif k == 4:
            j = rng.randrange(len(text) + 1)
            text = text[:j] + text[i:i + 8] + text[j:]
        else:
            text = text[:i] + rng.choice(
                ['"""', "'''", " . ", "# ", "@prefix q: <u> .", "_:b", "[]",
                 "true", "1.", "1.e5", "a ", "^^", "@en"]) + text[i:]
    return text


def gen_limits(rng, length):
    k = rng.randrange(4)
    if k == 0:
        size = rng.randint(1, 8)
    elif k == 1:
        size = rng.randint(8, 64)
    elif k == 2:
        # few blocks
        size = rng.randint(max(1, length // 5), length + 1)
    else:
        # the last block is short
        n = rng.randint(1, 4)
        size = max(1, (length - rng.randint(0, 3)) // n)
    limits = {"FILE_BUFFER_SIZE": size}
    if rng.random() < 0.7:
        limits["PARSER_MIN_TRIPLES_AT_ONCE"] = rng.choice([1, 1, 2, 3, 7])
    return limits


class P17(Spec):
    id = "P17"
    rule = ("a document of at least three triples or one that has to be "
            "rejected, read in at least two blocks; identified by the text, "
            "the parser and the sizes of the blocks")
    cases = {"quick": 800, "thorough": 20000}

    def generate(self, rng, i, tier):
        g = Graph(rng, rng.choice([1, 2, 4, 8, 15]))
        trees = mark_trees(g.trees)
        fmt = rng.choice(["ttl", "ttl", "ascii"])
        text = spell(rng, trees, fmt)
        case = {"fmt": fmt, "text": text}
        if rng.random() < 0.3:
            case["text"] = mutate(rng, text)
        else:
            case["trees"] = trees
        n = len(case["text"].encode())
        case["limits"] = [gen_limits(rng, n) for _ in range(5)]
        return case

    def triples(self, env, case, fmt, limits):
        """The triples of the document, or None if it is rejected."""
        try:
            ix = env.tools.build_index(
                case["text"], fmt=fmt, limits=limits, timeout=60,
                settings={"ascii-prefixes-only": case["fmt"] == "ascii"},
                args=["--no-patterns"])
        except IndexFailed as e:
            if e.rc < 0:
                return "crash", e.out[-1000:]
            return None, e.out[e.out.find("ERROR"):][:1000]
        sv = None
        try:
            try:
                sv = ix.serve(args=["--no-patterns"])
            except ServerDied:
                # there is not a single triple
                return "no index", ""
            r = sv.query(QUERY, send=100000)
            if r.get("status") != "OK":
                return "error", str(r.get("exception"))[:500]
            got = []
            for s, p, o in r["res"]:
                if p.startswith("@") or "langtag" in p:
                    continue
                got.append(tuple(("blank", x) if parse_output(x) is None
                                 else ("term", parse_output(x))
                                 for x in (s, p, o)))
            if len(set(got)) != len(got):
                return "a triple is stored twice", str(got)[:500]
            return colour([(s, p[1], o) for s, p, o in got]), ""
        finally:
            if sv:
                sv.stop()
            ix.close()

    def run(self, env, case):
        out = Outcome()
        try:
            self.compare(env, case, out)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        return out

    def compare(self, env, case, out):
        if case.get("trees"):
            exp = P11.SPEC.expected(case["trees"])
        else:
            # the whole document at once
            exp, why = self.triples(
                env, case, "mmap" if case["fmt"] == "ttl" else "ttl", None)
            out.count("changed documents " +
                      ("rejected" if exp is None else "accepted"))
        for limits in case["limits"]:
            act, why = self.triples(env, case, "ttl", limits)
            out.evaluations += 1
            if act != exp:
                if isinstance(act, list) and isinstance(exp, list):
                    a, e = set(act), set(exp)
                    why = "missing %s; unexpected %s" % (
                        sorted(e - a)[:5], sorted(a - e)[:5])
                out.fail("the triples depend on the blocks", limits=limits,
                         detail="%s expected %s got %s: %s" % (
                             limits, exp is not None, act is not None, why))
                return
            size = limits["FILE_BUFFER_SIZE"]
            if (exp is None or len(exp) >= 3) and \
                    size < len(case["text"].encode()):
                out.nontrivial.append(digest(
                    [case["text"], case["fmt"], limits]))
                if not out.samples:
                    out.samples.append({
                        "document": case["text"][:500], "limits": limits,
                        "parser": case["fmt"],
                        "triples": exp and len(exp)})
            out.count("parser " + case["fmt"])
            out.count("blocks of less than 9 bytes" if size < 9 else
                      "longer blocks")

    def shrink(self, case, fail):
        import random
        if len(case["limits"]) > 1 and fail.get("limits"):
            yield dict(case, limits=[fail["limits"]])
            return
        if case.get("trees"):
            for trees in P11.SPEC.smaller(case["trees"]):
                for k in range(4):
                    yield dict(case, trees=trees, text=spell(
                        random.Random(k), trees, case["fmt"]))
        else:
            for t in ddmin_lists(case["text"].split("\n")):
                yield dict(case, text="\n".join(t))
            if len(case["text"]) < 400:
                for t in ddmin_lists(list(case["text"])):
                    yield dict(case, text="".join(t))
        for k, v in case["limits"][0].items():
            if v > 1:
                for w in (1, v // 2, v - 1):
                    yield dict(case, limits=[dict(case["limits"][0],
                                                  **{k: w})])


SPEC = P17()
