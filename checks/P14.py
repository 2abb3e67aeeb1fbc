import json
import re
import urllib.parse

import vpool
from vmodel import render_query, to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied

EXTRA = [["<a>", "<p>", "<b>"], ["<a>", "<p>", "<c>"], ["<b>", "<p>", "<c>"],
         ["<c>", "<q>", '"x y"@en'], ["<a>", "<q>", '"x"'],
         ["<b>", "<n>", '"5"^^<http://www.w3.org/2001/XMLSchema#int>'],
         ["<a>", "<n>", '"7.5"^^<http://www.w3.org/2001/XMLSchema#decimal>']]
CANARY = "SELECT ?x ?y WHERE { ?x <p> ?y . FILTER (?x != <b>) }"
ANSWER = [["<a>", "<b>"], ["<a>", "<c>"]]
WORDS = "".join("%s\t%d\t%d\t1\n" % x for x in [
    ("alpha", 0, 1), ("<a>", 1, 1), ("alphabet", 0, 1), ("beta", 0, 1),
    ("alpha", 0, 2), ("<b>", 1, 2), ("<c>", 1, 2), ("gamma", 0, 2),
    ("beta", 0, 3), ("<c>", 1, 3)])
DOCS = "3\talpha <a> alphabet beta alpha <b> <c> gamma beta\n"

TEMPLATES = [
    "PREFIX x: <http://x/> PREFIX : <http://y/> SELECT DISTINCT ?a ?b WHERE "
    "{ ?a x:p ?b ; :q ?c , ?d . ?b <p> ?e }",
    "SELECT ?x (COUNT(DISTINCT ?y) AS ?n) (SUM(?z) AS ?s) WHERE { ?x <p> ?y . "
    "OPTIONAL { ?x <n> ?z } } GROUP BY ?x HAVING (?n > 1) ORDER BY DESC(?n) "
    "?x LIMIT 10 OFFSET 1",
    'SELECT ?x (GROUP_CONCAT(?y; SEPARATOR=", ") AS ?g) WHERE { ?x <q> ?y . '
    'FILTER (lang(?y) = "en") } GROUP BY ?x',
    'SELECT ?x ?y WHERE { { ?x <p> ?y } UNION { ?y <p> ?x } MINUS { ?x <q> '
    '"x" } VALUES ?x { <a> <b> } }',
    "SELECT ?x ?y WHERE { VALUES (?x ?y) { (<a> <b>) (<b> <c>) } . BIND (?x "
    "AS ?z) . ?x <p>+ ?y . ?y (<p>|^<q>)/<p>*3 ?w }",
    'SELECT ?x WHERE { ?x <q> ?y . FILTER regex(?y, "^x.*", "i") . FILTER '
    '(?y >= "a" ) . FILTER (?y != 5.0) }',
    "SELECT ?p (COUNT(?p) AS ?n) WHERE { ?x ql:has-predicate ?p . ?x <p> <b> "
    "} GROUP BY ?p ORDER BY DESC(?n)",
    "SELECT ?s ?p ?o WHERE { ?s ?p ?o . ?s <p> <b> }",
    "SELECT ?x TEXT(?t) SCORE(?t) WHERE { ?x <p> ?y . ?t ql:contains-entity "
    '?x . ?t ql:contains-word "alpha beta*" } TEXTLIMIT 2 ORDER BY SCORE(?t)',
    'SELECT ?t ?x WHERE { ?t ql:contains-word alph* . ?t ql:contains-entity '
    "<a> . ?t ql:contains-entity ?x }",
    "SELECT (AVG(?n) AS ?m) (MIN(?n) AS ?i) (MAX(?n) AS ?j) (SAMPLE(?x) AS "
    "?k) WHERE { ?x <n> ?n }",
    "SELECT ?x WHERE { { SELECT ?x (COUNT(?y) AS ?c) WHERE { ?x <p> ?y } "
    "GROUP BY ?x } . ?x <p> ?z . BIND ((?c + 1) AS ?d) }",
    'SELECT ?x WHERE { ?x @en@<q> ?y . FILTER (langmatches(lang(?y), "en")) }',
    "SELECT ?x WHERE { ?x <n> ?y . FILTER prefix(?x, \"<a\") . FILTER (str(?x)"
    " = \"a\") }",
]
TOKENS = [
    "SELECT", "DISTINCT", "REDUCED", "WHERE", "{", "}", "(", ")", ".", ";",
    ",", "?x", "?y", "?", "$x", "<p>", "<a>", "<", ">", "<>", '"', '""', "'",
    '"x"', '"x"@en', '"\\"', "@en", "^^", "OPTIONAL", "UNION", "MINUS",
    "FILTER", "BIND", "AS", "VALUES", "UNDEF", "GROUP BY", "HAVING",
    "ORDER BY", "ASC", "DESC(?x)", "LIMIT", "OFFSET", "TEXTLIMIT", "COUNT",
    "SUM(?n)", "(COUNT(?x) AS ?c)", "GROUP_CONCAT", 'SEPARATOR=","', "regex",
    "lang(?x)", "langmatches", "prefix", "str", "&&", "||", "!", "=", "!=",
    "<=", ">=", "*", "+", "/", "|", "^", "?", "*3", "-1", "0", "5", "1.5",
    "99999999999999999999", "18446744073709551615", "1e400", "true", "NaN",
    "ql:contains-word", "ql:contains-entity", "ql:has-predicate", "a",
    "TEXT(?t)", "SCORE(?t)", "PREFIX x: <http://x/>", "PREFIX", "BASE", "x:",
    "x:y", "_:b", "[]", "[ <p> ?y ]", "#c\n", "\n", "\t", "\\", "\\u0041",
    "\0", "ü", "\U0001F600", "\udcff", "\udcc3", "alph*", "*", "ASK",
    "CONSTRUCT", "EXISTS", "NOT EXISTS", "IN", "SERVICE", "GRAPH",
    "<QLever-internal-function/has-predicate>",
    "<QLever-internal-function/contains-word>", "{ }", "{ { } }",
    "(<p>+)*", "^(<p>/<q>)", "<p>*", "<p>?", "<p>*0", "[^a]", "a" * 300,
]
TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|<[^<> ]*>|\?\w+|\w+|\s+|.', re.S)


def mutate(rng, text, others):
    toks = TOKEN.findall(text)
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 6, 15])):
        if not toks:
            toks = ["SELECT"]
        k = rng.randrange(12)
        i = rng.randrange(len(toks))
        if k == 0:
            del toks[i:i + rng.choice([1, 1, 2, 5])]
        elif k == 1:
            toks.insert(i, rng.choice(TOKENS))
        elif k == 2:
            toks[i] = rng.choice(TOKENS)
        elif k == 3:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4:
            j = min(len(toks), i + rng.randint(1, 12))
            toks[i:i] = toks[i:j]
        elif k == 5:
            toks = toks[:i] if rng.random() < 0.5 else toks[i:]
        elif k == 6:
            o = TOKEN.findall(rng.choice(others))
            a = rng.randrange(len(o))
            toks[i:i] = o[a:a + rng.randint(1, 15)]
        elif k == 7:
            t = toks[i]
            p = rng.randint(0, len(t))
            toks[i] = t[:p] + rng.choice(
                ['"', "<", ">", "?", "\\", "%", "@", "^", " ", "'", "\0", "(",
                 ")", "*", "\udc80", "{", "}", "$", "ä"]) + t[p:]
        elif k == 8 and toks[i]:
            t = toks[i]
            p = rng.randrange(len(t))
            toks[i] = t[:p] + t[p + 1:]
        elif k == 9:
            n = rng.choice([2, 3, 10, 40])
            toks[i] = toks[i] * n
        elif k == 10:
            n = rng.choice([2, 5, 30])
            o, c = rng.choice([("{", "}"), ("(", ")"),
                               ("OPTIONAL { ?x <p> ?y . ", "}"),
                               ("<p>/(", ")")])
            if o == "<p>/(":
                n = min(n, 5)   # planning takes exponential time
            j = rng.randrange(i, len(toks))
            toks[i:j + 1] = [o] * n + toks[i:j + 1] + [c] * n
        else:
            vs = [x for x in toks if x.startswith("?")]
            if vs and toks[i].startswith("?"):
                toks[i] = rng.choice(vs)
            elif vs:
                a = rng.choice(vs)
                b = rng.choice(vs)
                toks = [b if x == a else x for x in toks]
    return "".join(toks)[:6000]


def quote(rng, text):
    b = text.encode("utf-8", "surrogateescape")
    if rng.random() < 0.85:
        return urllib.parse.quote_from_bytes(b).encode()
    return re.sub(rb"[ &#\r\n]", lambda m: b"%%%02x" % m.group()[0], b)


def mangle(rng, req):
    """A request that need not be HTTP."""
    b = bytearray(req)
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not b:
            break
        i = rng.randrange(min(len(b), rng.choice([12, 40, len(b)])))
        k = rng.randrange(7)
        if k == 0:
            del b[i:i + rng.choice([1, 2, 4, 30])]
        elif k == 1:
            b[i:i] = rng.choice([b"GET", b"HTTP", b"?", b"&", b"=", b"%",
                                 b"%f", b"/", b"\r\n", b"\0", b"\xff", b" ",
                                 b"query=", b"POST ", b"\n", b"&&", b"=&"])
        elif k == 2:
            b[i] = rng.randrange(256)
        elif k == 3:
            del b[i:]
        elif k == 4:
            b = bytearray(rng.choice([b"HTTP", b"HTTP/GET", b"GET", b"GET HTTP",
                                      b"GET /", b"", b"\r\n", b"HTTP GET /?a=b",
                                      b"GETHTTP/1.1"])) + b[i:]
        elif k == 5:
            b[i:i] = b"x" * rng.choice([10, 9990, 20000])
        else:
            b = bytearray(re.sub(rb"GET /\?", b"GET /" + rng.choice(
                [b"index.html", b"../x?", b"??", b"style.css", b"/", b"?=&"]),
                bytes(b), count=1))
    return bytes(b)


def gen_request(rng, pool):
    text = mutate(rng, rng.choice(pool), pool)
    params = [b"query=" + quote(rng, text)]
    for p in (b"send=", b"timeout=", b"action=", b"cmd=", b"pinsubtrees=",
              b"pinresult=", b"foo="):
        if rng.random() < 0.12:
            params.append(p + rng.choice(
                [b"", b"1", b"-1", b"tsv_export", b"csv_export", b"true",
                 b"clearcache", b"cachestats", b"stats", b"abc", b"%", b"0",
                 b"99999999999999999999", b"1e9", b"clearcachecomplete",
                 b"x%00", b"%ff"]))
    rng.shuffle(params)
    if rng.random() < 0.03:
        params[0] = rng.choice([b"", b"query", b"=", b"query=", b"\xff=1",
                                params[-1], b"QUERY=" + quote(rng, text)])
    req = b"GET /?" + b"&".join(params) + b" HTTP/1.1\r\nHost: x\r\n\r\n"
    if rng.random() < 0.2:
        req = mangle(rng, req)
    return req


class P14(Spec):
    id = "P14"
    targets = {"asan": ["IndexBuilderMain", "ServerMain"]}
    rule = ("a request that was answered completely, and that differs from "
            "all other requests of the run")
    cases = {"quick": 400, "thorough": 12000}
    batch = 120

    def generate(self, rng, i, tier):
        triples = vpool.mixed_kb(rng, langs=i % 2 == 0, size=12) + EXTRA
        pool = [render_query(q) for q in vpool.pool(rng, triples, 8)] + \
            TEMPLATES
        return {"triples": triples,
                "requests": [gen_request(rng, pool).decode("latin1")
                             for _ in range(self.batch)]}

    def run(self, env, case):
        out = Outcome()
        tools = env.variant("asan")
        try:
            ix = tools.build_index(to_turtle(case["triples"]),
                                   text=(WORDS, DOCS))
        except IndexFailed as e:
            return out.fail("index build failed", detail=e.out[-2500:])
        sv = None
        at = None
        try:
            sv = ix.serve(args=["-t"], mem=1)
            for at, r in enumerate(case["requests"]):
                msg = self.one(sv, out, r.encode("latin1"))
                if msg:
                    return out.fail(msg[0], at=at, sparql=r[:2000],
                                    detail=msg[1])
                if at % 10 == 9 or at + 1 == len(case["requests"]):
                    got = sv.query(CANARY, clear=False)
                    if sorted(got.get("res", [])) != ANSWER:
                        return out.fail("wrong answer to a plain query",
                                        at=at, detail=str(got)[:800])
        except (HttpError, ServerDied) as e:
            out.fail("no answer", at=at, sparql=case["requests"][at][:2000]
                     if at is not None else "", detail=brief(sv, str(e)))
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def one(self, sv, out, req):
        try:
            ans = sv.raw(req, half_close=True, timeout=100)
        except HttpError:
            # An answer to something else than HTTP is given, and the
            # connection closed, before everything was read.
            if b"HTTP" in req.partition(b"\r\n")[0] or len(req) < 9000:
                raise
            out.count("connection closed early")
            return None
        if not ans:
            sv._check_alive()
            return "empty answer", ""
        out.evaluations += 1
        head, sep, body = ans.partition(b"\r\n\r\n")
        lines = head.decode("latin1").split("\r\n")
        m = re.match(r"HTTP/1\.[01] (200|400|404) ", lines[0])
        if not m or not sep:
            return "not an HTTP answer", repr(ans[:300])
        n = [x.split(":", 1)[1].strip() for x in lines[1:]
             if x.lower().startswith("content-length:")]
        if n != [str(len(body))]:
            return "wrong length", "%s for %d bytes" % (n, len(body))
        kind = m.group(1)
        if kind == "200" and not any(x in head for x in
                                     (b"text/csv", b"text/tab", b"text/html",
                                      b"text/css", b"javascript")):
            try:
                j = json.loads(body)
            except ValueError as e:
                return "not JSON", "%s: %r" % (e, body[:500])
            kind = j.get("status", "statistics")
            if kind == "ERROR" and not j.get("exception"):
                return "error without a message", str(j)[:500]
            if kind == "OK" and not (
                    isinstance(j["res"], list) and
                    all(len(x) == len(j["selected"]) for x in j["res"])):
                return "malformed table", str(j)[:500]
        out.count("answer " + kind)
        out.nontrivial.append(digest(req.decode("latin1")))
        if len(out.samples) < 1 and kind == "ERROR":
            out.samples.append(repr(req)[:300])
        return None

    def shrink(self, case, fail):
        rs = case["requests"]
        n = fail.get("at")
        if n is not None and len(rs) > 1:
            yield dict(case, requests=[rs[n]])
            yield dict(case, requests=rs[:n + 1])
        for x in ddmin_lists(rs):
            yield dict(case, requests=x)
        if len(rs) == 1:
            r = rs[0]
            size = len(r) // 2
            while size:
                for a in range(0, len(r), size):
                    yield dict(case, requests=[r[:a] + r[a + size:]])
                size //= 2
        for t in ddmin_lists(case["triples"]):
            if all(x in t for x in EXTRA):
                yield dict(case, triples=t)


def brief(sv, msg):
    if sv is None:
        return msg[:2500]
    t = sv.tail(20000)
    k = max(t.find("ERROR: AddressSanitizer"), t.find("runtime error"))
    return msg[:100] + (t[max(0, k - 200):k + 1800] if k >= 0 else t[-1500:])


SPEC = P14()
