import re

import P11
import P17
import vpool
from P11 import mark_trees, spell
from vmodel import to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, ServerDied
from vturtle import Graph

BYTES = [b"\0", b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f",
         b"\xef\xbb\xbf", b"\r", b"\r\n", b"\t", b"\n\n", b"\\", b'"', b"<",
         b">", b"\\u", b"\\U0011FFFF", b"\\uD800", b"\\u00", b'"@', b'"^^',
         b'"^^<', b"@", b"^^<http://www.w3.org/2001/XMLSchema#integer>",
         b'"x"^^<http://www.w3.org/2001/XMLSchema#double>',
         b'"99999999999999999999999"^^<http://www.w3.org/2001/XMLSchema#int>',
         b'"-0-0"^^<http://www.w3.org/2001/XMLSchema#date>',
         b'"99999-1-1T9"^^<http://www.w3.org/2001/XMLSchema#dateTime>',
         b'"1e999999"^^<http://www.w3.org/2001/XMLSchema#double>',
         b'"-"^^<http://www.w3.org/2001/XMLSchema#decimal>',
         b'""^^<http://www.w3.org/2001/XMLSchema#float>',
         b'"."^^<http://www.w3.org/2001/XMLSchema#decimal>',
         b'"-"^^<http://www.w3.org/2001/XMLSchema#gYear>',
         b'""^^<http://www.w3.org/2001/XMLSchema#dateTime>', b"1e", b"+.",
         b"-.e5", b"_:", b"_:.", b"[", b"]", b"[[", b"()", b"'''", b'"""',
         b":", b"::", b"a:", b"@prefix", b"@base", b"@prefix : <x>", b"PREFIX",
         b"BASE <y>", b"#", b"\xe2\x80\xa8", b" a ", b";;", b",,", b"..",
         b'""@en-', b'"x"@en', b"<>", b"<a b>", b"true", b"falsey"]


REPORT = re.compile("AddressSanitizer|runtime error:|LeakSanitizer|"
                    "terminate called")


def brief(text):
    m = REPORT.search(text)
    return text[max(0, m.start() - 200):][:2500] if m else text[-1500:]


def mutate(rng, data, others):
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 8])):
        i = rng.randrange(len(data) + 1)
        k = rng.randrange(9)
        if k == 0:
            data = data[:i] + data[i + rng.choice([1, 1, 2, 9]):]
        elif k <= 3:
            data = data[:i] + rng.choice(BYTES) + data[i:]
        elif k == 4:
            data = data[:i]
        elif k == 5:
            j = min(len(data), i + rng.randint(1, 40))
            data = data[:j] + data[i:j] * rng.choice([1, 2, 30]) + data[j:]
        elif k == 6 and data:
            i = min(i, len(data) - 1)
            data = data[:i] + bytes([rng.randrange(256)]) + data[i + 1:]
        elif k == 7:
            o = rng.choice(others)
            a = rng.randrange(len(o) + 1)
            data = data[:i] + o[a:a + rng.randint(1, 60)] + data[i:]
        else:
            data = data[:i] + data[i:i + 1] * rng.choice([2, 50, 1100]) + \
                data[i:]
    return data


def settings(rng):
    s = {}
    for k, vs in (
            ("prefixes-external", [["<"], ["<http", "<u"], ["_"]]),
            ("languages-internal", [[], ["en"]]),
            ("locale", [{"language": "de", "country": "DE",
                         "ignore-punctuation": True},
                        {"language": "en", "country": "US",
                         "ignore-punctuation": False}]),
            ("num-triples-per-partial-vocab", [1, 2, 5]),
            ("parser-batch-size", [1, 2, 5]),
            ("ascii-prefixes-only", [True, True, False])):
        if rng.random() < 0.25:
            s[k] = rng.choice(vs)
    return s


def words(rng, ents):
    lines = []
    for c in range(rng.randint(1, 6)):
        for _ in range(rng.randint(1, 5)):
            e = rng.random() < 0.4
            lines.append("%s\t%d\t%d\t%d" % (
                rng.choice(ents) if e else rng.choice(
                    ["alpha", "beta", "alphabet", "z", "1990"]), e, c,
                rng.randint(1, 3)))
    w = "\n".join(lines) + "\n"
    d = "".join("%d\ttext of %d\n" % (c, c) for c in range(0, 6, 2))
    return w, d


def tsv(triples):
    return "".join("%s\t%s\t%s\t.\n" % tuple(t) for t in triples)


class P15(Spec):
    id = "P15"
    targets = {"asan": ["IndexBuilderMain", "ServerMain"]}
    rule = ("an input that differs from all others of the run and that the "
            "builder read completely or rejected; identified by its bytes")
    cases = {"quick": 170, "thorough": 12000}
    batch = 4

    def generate(self, rng, i, tier):
        g = Graph(rng, rng.choice([1, 2, 4]))
        trees = mark_trees(g.trees)
        triples = vpool.mixed_kb(rng, langs=True, size=8)
        base = {"ttl": spell(rng, trees, "ttl"), "nt": spell(rng, trees, "nt"),
                "ascii": spell(rng, trees, "ascii"), "tsv": tsv(triples),
                "kb": to_turtle(triples)}
        base = {k: v.encode("utf-8", "surrogateescape")
                for k, v in base.items()}
        inputs = []
        for _ in range(self.batch):
            fmt = rng.choice(["ttl", "ttl", "nt", "tsv", "mmap"])
            src = base[{"ttl": rng.choice(["ttl", "ascii", "kb", "nt"]),
                        "nt": rng.choice(["nt", "kb"]),
                        "mmap": "ttl"}.get(fmt, fmt)]
            x = {"fmt": fmt, "settings": settings(rng), "args": [
                a for a in ("-l", "-N", "--no-patterns")
                if rng.random() < 0.2], "limits": {}}
            data = mutate(rng, src, list(base.values()))
            if rng.random() < 0.5:
                x["limits"] = P17.gen_limits(rng, max(1, len(data)))
            if rng.random() < 0.3:
                x["limits"]["VOCABULARY_BUFFER_SIZE"] = rng.choice([1, 2, 5])
            if rng.random() < 0.3:
                w, d = words(rng, [t[0] for t in triples] + ["<zz>"])
                if rng.random() < 0.4:
                    data = base["kb"]
                    fmt = x["fmt"] = "ttl"
                w, d = w.encode(), d.encode()
                if rng.random() < 0.7:
                    w = mutate(rng, w, [w, d])
                if rng.random() < 0.5:
                    d = mutate(rng, d, [w, d])
                # One offset is stored for each id up to the largest.
                d = re.sub(rb"(?m)^(\s*[+-]?\d{6})\d+", rb"\1", d)
                x["text"] = [w.decode("latin1"), d.decode("latin1")]
            x["data"] = data.decode("latin1")
            inputs.append(x)
        return {"inputs": inputs}

    def run(self, env, case):
        out = Outcome()
        tools = env.variant("asan")
        for at, x in enumerate(case["inputs"]):
            msg = self.one(tools, out, x)
            if msg:
                return out.fail(msg[0], at=at, fmt=x["fmt"], detail=msg[1])
            if not out.samples:
                out.samples.append(repr(x["data"])[:300])
            out.nontrivial.append(digest(x))
        return out

    def one(self, tools, out, x):
        text = x.get("text")
        ix = tools.build_index(
            x["data"].encode("latin1"), fmt=x["fmt"], args=x["args"],
            settings=x["settings"], limits=x["limits"], check=False,
            timeout=100, text=text and [t.encode("latin1") for t in text])
        sv = None
        try:
            out.evaluations += 1
            if ix.rc not in (0, 2) or REPORT.search(ix.out):
                return "the builder did not end properly", "exit %d: %s" % (
                    ix.rc, brief(ix.out))
            if ix.rc == 2:
                out.count("rejected " + x["fmt"])
                if "ERROR" not in ix.out:
                    return "no error message", ix.out[-500:]
                return None
            out.count("accepted " + x["fmt"])
            if text:
                out.count("accepted with text")
            try:
                sv = ix.serve(args=[a for a in x["args"]
                                    if a == "--no-patterns"] +
                              (["-t"] if text else []), mem=1)
            except ServerDied as e:
                if REPORT.search(str(e)) or "ERROR" not in str(e):
                    return "the server did not start", brief(str(e))
                out.count("not servable")
                return None
            qs = [P11.QUERY, "SELECT ?x ?y WHERE { ?x <p0> ?y }"]
            if text:
                qs += ['SELECT ?t TEXT(?t) WHERE { ?t ql:contains-word '
                       '"alph*" }',
                       'SELECT ?t ?e TEXT(?t) WHERE { ?t ql:contains-word '
                       '"beta" . ?t ql:contains-entity ?e }']
            for q in qs:
                r = sv.query(q, send=1000)
                out.count("answer " + str(r.get("status")))
            sv._check_alive()
        except (HttpError, ServerDied) as e:
            return "no answer", brief(str(e) + (sv.tail() if sv else ""))
        finally:
            if sv:
                sv.stop()
            ix.close()
        return None

    def shrink(self, case, fail):
        xs = case["inputs"]
        at = fail.get("at")
        if len(xs) > 1:
            yield dict(case, inputs=[xs[at]])
            return
        x = xs[0]
        for k, v in (("settings", {}), ("args", []), ("limits", {}),
                     ("text", None)):
            if x.get(k):
                yield dict(case, inputs=[dict(x, **{k: v})])
        for d in ddmin_lists(x["data"].split("\n")):
            yield dict(case, inputs=[dict(x, data="\n".join(d))])
        if len(x["data"]) < 600:
            for d in ddmin_lists(list(x["data"])):
                yield dict(case, inputs=[dict(x, data="".join(d))])
        if x.get("text"):
            for i in range(2):
                for d in ddmin_lists(x["text"][i].split("\n")):
                    t = list(x["text"])
                    t[i] = "\n".join(d)
                    yield dict(case, inputs=[dict(x, text=t)])
                if len(x["text"][i]) < 100:
                    for d in ddmin_lists(list(x["text"][i])):
                        t = list(x["text"])
                        t[i] = "".join(d)
                        yield dict(case, inputs=[dict(x, text=t)])


SPEC = P15()
