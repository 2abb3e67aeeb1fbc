import hashlib
import os
import random
import threading

from vmodel import to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied

PAGES = {"index.html": "text/html", "style.css": "text/css",
         "script.js": "application/javascript"}
KB = [["<a>", "<p>", "<b>"], ["<a>", "<p>", "<c>"], ["<b>", "<p>", "<c>"]]
QUERY = b"query=SELECT+?x+WHERE+{?x+<p>+<c>}"
# Parts of names; combined they come close to the names of the pages, to those
# of the other files in the directory, and to places outside of it.
STEMS = ["index", "style", "script", "secret", "idx", "in", "server", "sub",
         "passwd", "", "Index", "STYLE", "inde", "index2", ".index"]
ENDS = [".html", ".css", ".js", ".txt", ".ttl", ".log", ".vocabulary",
        ".index.pso", ".index.pso.meta", ".meta-data.json", ".htm", ".HTML",
        ".html.bak", ".html~", ".css.map", ".json", "", "."]
DIRS = ["", "", "", "", "./", "../", "sub/", "/", "//", "sub/../", "%2e/",
        "..%2f", "sub%2f", "../../", "@DIR/", "/@DIR/", "/etc/"]
TAILS = ["", "", "", "", "?", "?x=y", "?" + QUERY.decode(), "#a", "%00",
         "%20", " ", "/", "/.", ";x", "&x=y", "%3f", "\0", "\\"]


def content(spec):
    """The bytes described by [kind, size, seed]."""
    kind, size, seed = spec
    rng = random.Random(seed)
    if kind == "bytes":
        return rng.randbytes(size)
    if kind == "lines":
        return b"".join(rng.choice([b"\r\n", b"\n", b"\r", b"x" * 7, b"\0",
                                    b"\x1a", b"\r\n\r\n", b"HTTP/1.1 ", b" ",
                                    "ü".encode(), b"\xff"])
                        for _ in range(size))
    return (b"page %d " % seed * (size // 5 + 1))[:size]


def gen_content(rng):
    return [rng.choice(["text", "bytes", "lines"]),
            rng.choice([0, 1, 2, 100, 5000, 65535, 65536, 300000])
            if rng.random() < 0.7 else rng.randrange(3000000),
            rng.randrange(1 << 30)]


def gen_target(rng):
    k = rng.random()
    if k < 0.3:
        t = rng.choice(list(PAGES) + [""])
        if rng.random() < 0.3 and t:
            t += rng.choice(["?", "?x=y", "?cmd=stats", "?a?b",
                             "?" + QUERY.decode(), "?f=secret.txt"])
        return t
    if k < 0.4:
        return "?" + QUERY.decode()
    if k < 0.5:
        t = list(rng.choice(list(PAGES)))
        i = rng.randrange(len(t))
        j = rng.randrange(4)
        if j == 0:
            del t[i]
        elif j == 1:
            t[i] = rng.choice("aZ.%/\\0")
        elif j == 2:
            t.insert(i, rng.choice("aZ.%/\\0"))
        else:
            t[i] = "%%%02x" % ord(t[i])
        return "".join(t)
    if k < 0.55:
        return rng.choice(list(PAGES)) + rng.choice(list(PAGES))
    return rng.choice(DIRS) + rng.choice(STEMS) + rng.choice(ENDS) + \
        rng.choice(TAILS)


class P22(Spec):
    id = "P22"
    rule = ("a request for one of the pages that was answered with its "
            "content, or for another name that was refused; identified by "
            "target and content")
    cases = {"quick": 500, "thorough": 12000}

    def generate(self, rng, i, tier):
        steps = []
        for _ in range(rng.randint(1, 3)):
            files = {p: gen_content(rng) if rng.random() < 0.8 else None
                     for p in PAGES}
            steps.append({"files": files,
                          "targets": [gen_target(rng)
                                      for _ in range(rng.randint(5, 25))]})
        return {"steps": steps, "clients": rng.choice([1, 1, 1, 3]),
                "threads": rng.choice([1, 2, 4]),
                "version": rng.choice(["1.0", "1.1"])}

    def run(self, env, case):
        out = Outcome()
        try:
            ix = env.tools.build_index(to_turtle(KB))
        except IndexFailed as e:
            return out.fail("index build failed", detail=e.out[-1500:])
        sv = None
        try:
            secret = "top-" + hashlib.sha1(ix.dir.encode()).hexdigest()
            os.mkdir(os.path.join(ix.dir, "sub"))
            for name in ["secret.txt", "secret.html", "sub/index.html",
                         "sub/style.css", "index.html.bak", "index.htm",
                         "Index.html", "index2.html", "index", "in.js",
                         "style.css.map", "sub/secret.js"]:
                with open(os.path.join(ix.dir, name), "w") as f:
                    f.write(secret)
            sv = ix.serve(threads=case["threads"])
            for n, step in enumerate(case["steps"]):
                have = {}
                for name, spec in step["files"].items():
                    path = os.path.join(ix.dir, name)
                    if os.path.exists(path):
                        os.unlink(path)
                    if spec is not None:
                        have[name] = content(spec)
                        with open(path, "wb") as f:
                            f.write(have[name])
                self.step(sv, out, case, n, have, secret)
                if out.failure:
                    break
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def step(self, sv, out, case, n, have, secret):
        targets = case["steps"][n]["targets"]
        k = case["clients"]
        results = [None] * len(targets)

        def client(c):
            for i in range(c, len(targets), k):
                t = targets[i].replace("@DIR", sv.index.dir.lstrip("/"))
                req = b"GET /" + t.encode() + b" HTTP/" + \
                    case["version"].encode() + b"\r\nHost: x\r\n\r\n"
                try:
                    results[i] = (t, sv.raw(req))
                except (HttpError, ServerDied) as e:
                    results[i] = (t, e)
        threads = [threading.Thread(target=client, args=(c,))
                   for c in range(k)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for i, (t, ans) in enumerate(results):
            if isinstance(ans, Exception):
                raise ans
            msg = self.judge(out, t, ans, have, secret)
            if msg:
                out.fail(msg[0], step=n, at=i, target=repr(t), detail=msg[1])
                return

    def judge(self, out, target, ans, have, secret):
        out.evaluations += 1
        head, sep, body = ans.partition(b"\r\n\r\n")
        lines = head.decode("latin1").split("\r\n")
        fields = {x.split(":")[0].lower(): x.split(":", 1)[1].strip()
                  for x in lines[1:] if ":" in x}
        info = repr(head)[:300] + " body of %d bytes: %r" % (len(body),
                                                             body[:100])
        if not sep or fields.get("content-length") != str(len(body)):
            return "malformed answer", info
        code = lines[0].split(" ")[1:2]
        if secret.encode() in body:
            return "content of another file sent", info
        name, quest, rest = target.partition("?")
        if not name and quest:
            # Other queries only must not reveal the content of files.
            if not rest.startswith(QUERY.decode()):
                out.count("other query")
                return None
            if code != ["200"] or b'"<a>"' not in body or b'"<b>"' not in body:
                return "wrong answer to a query", info
            out.count("query")
            return None
        name = name or "index.html"
        if name in have:
            if code != ["200"]:
                return "page not sent", info
            if body != have[name]:
                return "page changed", "%d bytes instead of %d; %s" % (
                    len(body), len(have[name]), info)
            if fields.get("content-type", "").split(";")[0] != PAGES[name]:
                return "wrong type of content", info
            out.count("page")
        else:
            if code != ["404"]:
                return "not refused", info
            if len(body) > 1000:
                return "long refusal", info
            out.count("missing page" if name in PAGES else "refused")
        out.nontrivial.append(digest([target, hashlib.sha1(
            have.get(name, b"")).hexdigest()]))
        if len(out.samples) < 1 and name not in PAGES:
            out.samples.append({"target": target, "answer": lines[0]})
        return None

    def shrink(self, case, fail):
        steps = case["steps"]
        for x in ddmin_lists(steps):
            if x:
                yield dict(case, steps=x)
        for n, s in enumerate(steps):
            for x in ddmin_lists(s["targets"]):
                yield dict(case, steps=steps[:n] + [dict(s, targets=x)] +
                           steps[n + 1:])
            for name, spec in s["files"].items():
                if spec is None:
                    continue
                for size in (0, spec[1] // 2, spec[1] - 1):
                    if 0 <= size < spec[1]:
                        f = dict(s["files"])
                        f[name] = [spec[0], size, spec[2]]
                        yield dict(case, steps=steps[:n] +
                                   [dict(s, files=f)] + steps[n + 1:])
        if case["clients"] > 1:
            yield dict(case, clients=1)


SPEC = P22()
