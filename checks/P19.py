"""The statistics of the server are those of the data."""
import json

import P08
import vgen
from vmodel import to_turtle
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied

NAMES = ["kb", "a b", 'quo"te', "back\\slash", "comma, {curly}", "ü€", "tab\tx",
         "line\nbreak", "", "x" * 300, "</s>", "1"]


class P19(Spec):
    id = "P19"
    rule = ("a knowledge base of at least three different triples; "
            "identified by triples, text and build options")
    cases = {"quick": 1200, "thorough": 30000}

    def generate(self, rng, i, tier):
        case = {"triples": vgen.gen_kb(rng, langs=False)
                if rng.random() < 0.5 else self.wide(rng),
                "args": rng.choice([[], ["--no-patterns"], ["-l"], ["-N"]]),
                "limits": rng.choice([None, None, {
                    "DISTINCT_LHS_PER_BLOCK": rng.choice([1, 2, 5]),
                    "USE_BLOCKS_INDEX_SIZE_TRESHOLD": rng.choice([1, 3, 10]),
                }])}
        if rng.random() < 0.5:
            case["name"] = rng.choice(NAMES)
        if rng.random() < 0.2:
            case["settings"] = {
                "num-triples-per-partial-vocab": rng.choice([2, 5, 17])}
        if rng.random() < 0.3:
            ents = sorted({t[0] for t in case["triples"]
                           if t[0].startswith("<")})[:9] + ["<zz>"]
            ctx = []
            while not any(not e for _, ls in ctx for _, e, _ in ls):
                ctx = P08.gen_contexts(rng, ents)
            case["contexts"] = ctx
            if rng.random() < 0.5:
                case["text-name"] = rng.choice(NAMES)
        return case

    def wide(self, rng):
        n = rng.choice([1, 3, 30, 300, 2000])
        s, p, o = (rng.choice([1, 2, 10, 1000]) for _ in range(3))
        return [["<s%d>" % rng.randrange(s), "<p%d>" % rng.randrange(p),
                 rng.choice(["<o%d>", "<s%d>", '"%d"']) % rng.randrange(o)]
                for _ in range(n)]

    def run(self, env, case):
        out = Outcome()
        args = list(case["args"])
        text = None
        if case.get("name") is not None:
            args += ["-K", case["name"]]
        if case.get("contexts"):
            words = "".join("%s\t%d\t%d\t%d\n" % (w, e, c, s)
                            for c, ls in case["contexts"] for w, e, s in ls)
            text = (words, "".join("%d\trecord\n" % c
                                   for c, _ in case["contexts"]))
            if case.get("text-name") is not None:
                args += ["-T", case["text-name"]]
        try:
            ix = env.tools.build_index(
                to_turtle(case["triples"]), args=args, text=text,
                settings=case.get("settings"), limits=case.get("limits"))
        except IndexFailed as e:
            return out.fail("index build failed", detail=str(e)[:1500])
        sv = None
        try:
            sv = ix.serve(args=["--no-patterns"], limits=case.get("limits"))
            _, body = sv.request({"cmd": "stats"})
            out.evaluations += 1
            self.judge(case, body, out)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def judge(self, case, body, out):
        try:
            got = json.loads(body.decode("utf-8"))
        except ValueError as e:
            out.fail("not JSON", detail="%s: %r" % (e, body[:500]))
            return
        triples = {tuple(t) for t in case["triples"]}
        exp = {"noftriples": len(triples), "permutations": 6,
               "nofsubjects": len({t[0] for t in triples}),
               "nofpredicates": len({t[1] for t in triples}),
               "nofobjects": len({t[2] for t in triples})}
        if case.get("contexts"):
            lines = [x for _, ls in case["contexts"] for x in ls]
            exp["nofrecords"] = len(case["contexts"])
            exp["nofwordpostings"] = sum(1 for x in lines if not x[1])
            exp["nofentitypostings"] = sum(1 for x in lines if x[1])
        exp = {k: str(v) for k, v in exp.items()}
        if case.get("name"):
            exp["kbindex"] = case["name"]
        if case.get("contexts") and case.get("text-name"):
            exp["textindex"] = case["text-name"]
        act = {k: str(got.get(k)) for k in exp}
        if act != exp:
            out.fail("wrong statistics", detail="expected %s got %s" % (
                {k: v for k, v in exp.items() if act[k] != v},
                {k: v for k, v in act.items() if exp[k] != v}))
            return
        out.count("with text" if case.get("contexts") else "without text")
        if len(triples) >= 3:
            out.nontrivial.append(digest(case))
            if len(triples) < 6:
                out.samples.append({"triples": case["triples"],
                                    "statistics": got})

    def shrink(self, case, fail):
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)
        if case.get("contexts"):
            yield {k: v for k, v in case.items() if k != "contexts"}
            for c in ddmin_lists(case["contexts"]):
                if any(not e for _, ls in c for _, e, _ in ls):
                    yield dict(case, contexts=c)
        for k in ("name", "text-name", "settings", "limits"):
            if case.get(k) is not None:
                yield {a: b for a, b in case.items() if a != k}


SPEC = P19()
