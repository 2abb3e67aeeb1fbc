"""The programs other than the server: query program, converter to N-Triples
and the program that adds patterns to an index."""
import os
import re
import subprocess

import vgen
import vpool
import vturtle
from P07 import P07
from P11 import spell
from vbuild import binary
from vmodel import KB, TooBig, eval_query, project, render_query, to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vsem import compare, valid_query
from vserver import IndexFailed
from vturtle import Graph, canonical, colour, flatten, parse_output

END = "\nNumber of matches (limit): "
TERM = re.compile(r'(<[^<>"\s]*>|"(?:[^"\\\n\r]|\\[tbnrf"\'\\]|'
                  r'\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8})*"'
                  r'(?:@[a-zA-Z0-9-]+|\^\^<[^<>"\s]*>)?|[^<"\s]\S*)')
LINE = re.compile(r"^%s %s %s \.$" % ((TERM.pattern,) * 3))
ESC = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"',
       "'": "'", "\\": "\\"}


def unescape(t):
    if not t.startswith('"'):
        return t
    return re.sub(r'\\(u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.)', lambda m: ESC[
        m.group(1)] if len(m.group(1)) == 1 else chr(int(m.group(1)[1:], 16)),
        t, flags=re.S)


class P21(Spec):
    id = "P21"
    rule = ("a query of the query program with at least one row, identified "
            "by its text, number of rows and the first 50 rows, or a "
            "converted document with at least three triples, identified by "
            "text and format")
    cases = {"quick": 600, "thorough": 14000}
    targets = {"main": ["IndexBuilderMain", "ServerMain", "SparqlEngineMain",
                        "TurtleParserMain", "CreatePatternsMain"]}

    def generate(self, rng, i, tier):
        if i % 2:
            return self.documents(rng)
        if i % 4 == 0:
            case = P07().generate(rng, i, tier)
            limits = case["limits"]
            triples, queries = case["triples"], case["queries"]
        else:
            triples = vpool.mixed_kb(rng)
            queries = vpool.pool(rng, triples, 12)
            limits = vgen.gen_limits(rng)
        return {"triples": triples, "queries": queries, "limits": limits,
                "has": i % 4 == 0,
                # patterns: made with the index or afterwards
                "later": vgen.chance(rng, 0.6)}

    def documents(self, rng):
        g = Graph(rng, rng.choice([1, 2, 4, 8, 15]))
        # the other tokenizer does not know all of Turtle
        docs = [[f, r, spell(rng, g.trees, "ascii" if r == "ctre" else f)]
                for f, r in (("ttl", "re2"), ("mmap", "re2"), ("nt", "re2"),
                             (rng.choice(["ttl", "mmap"]), "ctre"))]
        return {"trees": g.trees, "docs": docs, "out": vgen.chance(rng, 0.5)}

    def run(self, env, case):
        out = Outcome()
        if "docs" in case:
            for d in case["docs"]:
                self.convert(env, out, case, *d)
                if out.failure:
                    break
        else:
            self.ask(env, out, case)
        return out

    def program(self, env, name, args, limits=None, cwd=None):
        bdir = os.path.dirname(env.tools.index_bin)
        p = subprocess.run([binary(bdir, name)] + args, capture_output=True,
                           timeout=300, cwd=cwd,
                           env=env.tools.scratch.with_limits(limits))
        text = p.stdout + (p.stderr if p.returncode else b"")
        return p.returncode, text.decode("utf-8", "surrogateescape")

    # ------------------------------------------------------------------
    def ask(self, env, out, case):
        kb = KB(case["triples"], has=case["has"])
        limits = case["limits"]
        try:
            ix = env.tools.build_index(
                to_turtle(case["triples"]), limits=limits,
                args=["--no-patterns"] if case["later"] else [])
        except IndexFailed as e:
            out.fail("index build failed", detail=e.out[-1500:])
            return
        try:
            if case["later"]:
                rc, text = self.program(env, "CreatePatternsMain",
                                        ["-i", ix.base], limits)
                if rc:
                    out.fail("patterns", detail="exit %d: %s" % (
                        rc, text[-1200:]))
                    return
                out.count("indexes with patterns added afterwards")
            self.queries(env, out, case, kb, ix)
        finally:
            ix.close()

    def queries(self, env, out, case, kb, ix):
        todo = []
        for qi, q in enumerate(case["queries"]):
            rows = P07().reference(kb, q, case) if case["has"] else \
                eval_query(kb, q)
            text = render_query(q)
            if len(rows) > 5000 or "\n" in text or not self.plain(kb, q):
                out.count("left out")
                continue
            todo.append((qi, q, rows, text))
        path = os.path.join(ix.dir, "queries.txt")
        with open(path, "w") as f:
            f.write("".join(t[3] + "\n" for t in todo))
        rc, ans = self.program(env, "SparqlEngineMain",
                               ["-i", ix.base, "-q", path], case["limits"])
        parts = ans.split(END)
        for n, (qi, q, rows, text) in enumerate(todo):
            info = dict(query=qi, sparql=text)
            if rc or len(parts) <= n + 1:
                out.fail("no answer", detail="exit %d: %s" % (
                    rc, ans[-1200:]), **info)
                return
            out.evaluations += 1
            body, _, tail = parts[n].partition("\nDone. Time: ")
            exp = project(rows, q["select"])
            if q.get("distinct"):
                exp = list(dict.fromkeys(exp))
            want = max(0, len(exp) - (q.get("offset") or 0))
            if q.get("limit") is not None:
                want = min(want, q["limit"])
            m = re.search(r"\(no limit\): (\d+)", tail)
            # how many rows are computed before the limit is up to the engine
            # if there is one
            if q.get("limit") is None and not q.get("offset") and \
                    (not m or int(m.group(1)) != len(exp)):
                out.fail("number of matches", detail="%s for %d" % (
                    tail, len(exp)), **info)
                return
            lines = body.split("\n")[:-1]
            act = [x.split("\t") for x in lines[len(lines) - want:]]
            if len(lines) < want or any(len(a) != len(q["select"])
                                        for a in act):
                out.fail("rows missing", detail=body[-800:], **info)
                return
            msg = compare(q, rows, act)
            if msg:
                out.fail("wrong answer", detail=msg, **info)
                return
            out.count("queries")
            if act:
                out.nontrivial.append(digest(
                    [text, len(rows), sorted(map(str, exp[:50]))]))
                if not out.samples:
                    out.samples.append({"sparql": text, "rows": len(act)})

    def plain(self, kb, q):
        """No value contains a tab or a newline (known finding of P13)."""
        for it in q["select"]:
            if isinstance(it, list) and it[1] == "concat" and \
                    ("\t" in it[5] or "\n" in it[5]):
                return False
        return not any("\t" in x or "\n" in x for t in kb.triples for x in t)

    # ------------------------------------------------------------------
    def convert(self, env, out, case, fmt, regex, text):
        d = env.tools.scratch.sub()
        fail = dict(fmt=fmt, regex=regex, text=text)
        try:
            src = os.path.join(d, "in." + fmt)
            with open(src, "wb") as f:
                f.write(text.encode("utf-8", "surrogateescape"))
            args = ["-F", fmt, "-i", src, "-r", regex]
            dst = os.path.join(d, "out.nt")
            if case["out"]:
                args += ["-o", dst]
            rc, ans = self.program(env, "TurtleParserMain", args, cwd=d)
            if rc:
                out.fail("converter failed", detail="exit %d: %s" % (
                    rc, ans[-1200:]), **fail)
                return
            if case["out"]:
                with open(dst, "rb") as f:
                    ans = f.read().decode("utf-8", "surrogateescape")
        finally:
            env.tools.scratch.drop(d)
        out.evaluations += 1
        got = []
        for line in ans.split("\n"):
            if not case["out"] and re.search(r" - (INFO|DEBUG|WARN|ERROR)", line):
                continue
            if line == "":
                continue
            m = LINE.match(line)
            if not m:
                out.fail("not N-Triples", detail=repr(line), **fail)
                return
            s, p, o = (parse_output(unescape(x)) for x in m.groups())
            got.append((("term", s) if s else ("blank", m.group(1)),
                        p, ("term", o) if o else ("blank", m.group(3))))

        def key(t):
            c = canonical(t)
            if c is None:
                return ("blank", t[0], t[1])
            if isinstance(c, tuple) and c[2] in ("-0", "0"):
                c = c[:2] + ("0",)
            return ("term", c)
        exp = colour([(key(s), key(p)[1], key(o))
                      for s, p, o in flatten(case["trees"])])
        act = colour(got)
        if act != exp:
            a, e = set(act), set(exp)
            out.fail("wrong triples", detail="%d for %d; missing %s; "
                     "unexpected %s" % (len(act), len(exp), sorted(
                         e - a)[:5], sorted(a - e)[:5]), **fail)
            return
        out.count("documents " + fmt)
        out.count("triples", len(exp))
        if len(exp) >= 3:
            out.nontrivial.append(digest([fmt, text]))
            if not out.samples:
                out.samples.append({"format": fmt, "document": text[:600],
                                    "triples": len(exp)})

    # ------------------------------------------------------------------
    def focus(self, case, fail):
        if fail.get("query") is None:
            return None
        return dict(case, queries=[case["queries"][fail["query"]]])

    def shrink(self, case, fail):
        import random
        if "docs" in case:
            if len(case["docs"]) > 1:
                yield dict(case, docs=[d for d in case["docs"]
                                       if d[2] == fail["text"]][:1])
                return
            fmt, regex, _ = case["docs"][0]
            for ts in ddmin_lists(case["trees"]):
                for seed in range(3):
                    yield dict(case, trees=ts, docs=[[fmt, regex, spell(
                        random.Random(seed), ts,
                        "ascii" if regex == "ctre" else fmt)]])
            return
        for qs in ddmin_lists(case["queries"]):
            yield dict(case, queries=qs)
        for k in ("later", "limits"):
            if case[k]:
                yield dict(case, **{k: None if k == "limits" else False})
        for ts in ddmin_lists(case["triples"]):
            yield dict(case, triples=ts)
        for n, q in enumerate(case["queries"]):
            for q2 in vgen.shrink_query(q):
                if valid_query(q2):
                    yield dict(case, queries=case["queries"][:n] + [q2] +
                               case["queries"][n + 1:])


SPEC = P21()
