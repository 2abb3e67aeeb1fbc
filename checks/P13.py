import csv
import io
import json
import urllib.parse

import vgen
import vpool
from vmodel import KB, eval_query, render_query, to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vsem import compare, valid_query
from vserver import HttpError, IndexFailed, ServerDied

WORDS = ["HTTP", "HTTP/1.1", "GET", "GET /", "a+b", "50%", "100%25", "x&y=z",
         "?q#f", "%41", "http://x/?a=b&c=d", "ü", "€ 5", "\U0001F600",
         "two  spaces", "semi;colon", "query=1", "~", "(a|b)", "%", "%zz",
         "a%", "=", "&", "POST", "é+è", "tail "]


def encode(rng, text, style):
    """URL encoding of a parameter value in one of its many spellings."""
    keep = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
               "0123456789-._~")
    if style["bare"]:
        keep |= set("?(){}<>*'\"/:;,$!@|^=")
    out = []
    for b in text.encode("utf-8"):
        c = chr(b)
        if c == " " and style["plus"]:
            out.append("+")
        elif b >= 128 and style["utf8"]:
            out.append(bytes([b]))
            continue
        elif c in keep and rng.random() >= style["extra"]:
            out.append(c)
        else:
            h = "%%%02x" % b
            out.append(h.upper() if rng.random() < style["upper"] else h)
    return b"".join(x if isinstance(x, bytes) else x.encode() for x in out)


def gen_style(rng):
    return {"plus": rng.random() < 0.5, "bare": rng.random() < 0.4,
            "utf8": rng.random() < 0.3, "extra": rng.choice([0, 0, 0.2, 1]),
            "upper": rng.choice([0, 1, 0.5]), "seed": rng.randrange(1 << 30),
            "case": rng.random() < 0.2, "headers": rng.randrange(4),
            "split": rng.choice([0, 0, 1, 2, 5])}


def build(params, style):
    import random
    rng = random.Random(style["seed"])
    params = list(params)
    rng.shuffle(params)
    parts = []
    for k, v in params:
        if style["case"]:
            k = k.upper()
        parts.append(k.encode() + b"=" + encode(rng, v, style))
    req = b"GET /?" + b"&".join(parts) + b" HTTP/1.1\r\n"
    req += b"".join([b"Host: localhost\r\n", b"Accept: */*\r\n",
                     b"Referer: http://x/?query=GET+HTTP\r\n",
                     b"User-Agent: " + b"x" * 300 + b"\r\n"][:style["headers"]])
    req += b"\r\n"
    cuts = sorted(rng.randrange(1, len(req)) for _ in range(style["split"]))
    return [req[a:b] for a, b in zip([0] + cuts, cuts + [len(req)])]


class P13(Spec):
    id = "P13"
    rule = ("a request whose answer has at least one row; identified by query "
            "text, number of triples, kind of output, and spelling of the "
            "request")
    cases = {"quick": 1100, "thorough": 24000}

    def generate(self, rng, i, tier):
        triples = vpool.mixed_kb(rng)
        queries = vpool.pool(rng, triples, 6)
        words = rng.sample(WORDS, 6)
        for w in words:
            triples.append(["<e%d>" % rng.randrange(4), "<word>",
                            '"%s"' % w])
        for w in words:
            w = '"%s"' % w
            k = rng.randrange(3)
            if k == 0:
                queries.append({"select": ["?x"], "where": [
                    ["t", "?x", "<word>", w]]})
            elif k == 1:
                queries.append({"select": ["?x", "?w"], "where": [
                    ["t", "?x", "<word>", w], ["t", "?x", "<word>", "?w"]]})
            else:
                queries.append({"select": ["?w", "?x"], "where": [
                    ["t", "?x", "<word>", "?w"],
                    ["filter", ["cmp", rng.choice(["=", "!="]), "?w", w]]]})
        reqs = []
        # number of rows that are sent by default
        most = rng.choice([3, 8, 20, 100]) if rng.random() < 0.4 else None
        for q in queries:
            for _ in range(rng.randint(1, 2)):
                r = {"query": q, "style": gen_style(rng),
                     "kind": rng.choice(["json", "json", "tsv", "csv"])}
                if r["kind"] == "json" and rng.random() < 0.4:
                    r["send"] = rng.choice([0, 1, 2, 3, 5, 10, 1000])
                    if most is not None:
                        r["send"] = min(r["send"], most)
                if rng.random() < 0.3:
                    r["more"] = rng.sample(
                        [["cmd", "clearcache"], ["foo", "bar"],
                         ["pinresult", "false"], ["x", ""]], 2)
                reqs.append(r)
        return {"triples": triples, "requests": reqs, "most": most}

    def run(self, env, case):
        out = Outcome()
        kb = KB(case["triples"])
        try:
            ix = env.tools.build_index(to_turtle(case["triples"]))
        except IndexFailed as e:
            return out.fail("index build failed", detail=e.out[-1500:])
        sv = None
        try:
            most = case.get("most")
            sv = ix.serve(limits={"MAX_NOF_ROWS_IN_RESULT": most}
                          if most is not None else None)
            for n, r in enumerate(case["requests"]):
                self.one(sv, out, kb, case, n, r)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", at=n, detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def one(self, sv, out, kb, case, n, r):
        q = r["query"]
        text = render_query(q)
        params = [("query", text)] + [tuple(x) for x in r.get("more", ())]
        if "send" in r:
            params.append(("send", str(r["send"])))
        if r["kind"] != "json":
            params.append(("action", r["kind"] + "_export"))
        pieces = build(params, r["style"])
        ans = sv.raw(pieces, timeout=40)
        out.evaluations += 1
        head, _, body = ans.partition(b"\r\n\r\n")
        info = dict(at=n, sparql=text, request=repr(b"".join(pieces))[:1500])
        lines = head.decode("latin1").split("\r\n")
        fields = {x.split(":")[0].lower(): x.split(":", 1)[1].strip()
                  for x in lines[1:] if ":" in x}
        if not lines[0].startswith("HTTP/1.1 200"):
            return out.fail("status", detail=lines[0][:200], **info)
        if fields.get("content-length") != str(len(body)):
            return out.fail("length of the answer", detail="%s for %d bytes" %
                            (fields.get("content-length"), len(body)), **info)
        rows = eval_query(kb, q)
        if r["kind"] == "json":
            got = json.loads(body)
            if got.get("status") != "OK":
                return out.fail("error status", detail=str(
                    got.get("exception"))[:800], **info)
            if got["query"] != text:
                return out.fail("query text changed", detail=got["query"],
                                **info)
            names = [x if isinstance(x, str) else x[4] for x in q["select"]]
            if got["selected"] != names:
                return out.fail("selected variables",
                                detail=str(got["selected"]), **info)
            act, qq = got["res"], q
            lims = [x for x in (q.get("limit"), r.get("send", case.get(
                "most"))) if x is not None]
            if lims:
                qq = dict(q, limit=min(lims))
            total = rows if not q.get("distinct") else None
            if total is not None and q.get("limit") is None and \
                    got["resultsize"] != len(total):
                return out.fail("result size", detail="%s for %d rows" % (
                    got["resultsize"], len(total)), **info)
            msg = compare(qq, rows, act)
        else:
            sep = "," if r["kind"] == "csv" else "\t"
            want = body.decode("utf-8")
            plain = self.plain(kb, q, rows, sep)
            if not plain and not case.get("known"):
                out.count("left out: separator inside a value")
                return
            act = [x.split(sep) for x in want.split("\n")[:-1]] \
                if want else []
            msg = compare(q, rows, act)
            if msg and compare(q, rows, list(csv.reader(
                    io.StringIO(want), delimiter=sep))) is None:
                msg = None
        if msg:
            return out.fail("wrong answer as " + r["kind"], detail=msg, **info)
        out.count("requests " + r["kind"])
        if act:
            out.nontrivial.append(digest(
                [text, len(case["triples"]), r["kind"], r.get("send"),
                 r["style"]]))
            if not out.samples:
                out.samples.append({"request": repr(b"".join(pieces))[:400],
                                    "rows": len(act)})

    def plain(self, kb, q, rows, sep):
        """No value contains the separator or a newline (known finding)."""
        for it in q["select"]:
            if isinstance(it, list) and it[1] == "concat" and sep in it[5]:
                return False
        return not any(sep in x or "\n" in x for t in kb.triples for x in t)

    def shrink(self, case, fail):
        rs = case["requests"]
        n = fail.get("at", 0)
        if len(rs) > 1:
            yield dict(case, requests=[rs[n]])
            for x in ddmin_lists(rs):
                yield dict(case, requests=x)
            return
        r = rs[0]
        for k in ("more", "send"):
            if k in r:
                yield dict(case, requests=[{a: b for a, b in r.items()
                                            if a != k}])
        for k, v in r["style"].items():
            if v and k != "seed":
                yield dict(case, requests=[dict(r, style=dict(
                    r["style"], **{k: 0}))])
        for q2 in vgen.shrink_query(r["query"]):
            if valid_query(q2):
                yield dict(case, requests=[dict(r, query=q2)])
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)


SPEC = P13()
