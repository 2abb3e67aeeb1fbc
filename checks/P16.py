"""Numbers, dates and other typed literals keep their value and its order."""
import re
from collections import Counter
from fractions import Fraction

from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied

XSD = "http://www.w3.org/2001/XMLSchema#"
OPS = ["<", "<=", ">", ">=", "=", "!="]


# ---------------------------------------------------------------------- values
# A value is ["num", type, spelling], ["date", type, spelling] or
# ["other", literal].
def num_key(v):
    s = v[2]
    m = re.fullmatch(r"([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?", s)
    frac = m.group(3) or ""
    x = Fraction(int((m.group(2) or "") + frac or "0"), 10 ** len(frac))
    x *= Fraction(10) ** int(m.group(4) or 0)
    if m.group(1) == "-":
        x = -x
    return x


def date_key(v):
    s = v[2]
    m = re.match(r"(-?)(\d+)", s)
    year = int(m.group(2)) * (-1 if m.group(1) else 1)
    rest = s[m.end():]
    month = day = 0
    hh = mm = ss = 0
    if v[1] in ("dateTime", "date", "gYearMonth"):
        month, rest = int(rest[1:3]), rest[3:]
    if v[1] in ("dateTime", "date"):
        day, rest = int(rest[1:3]), rest[3:]
    if v[1] == "dateTime":
        hh, mm, ss = int(rest[1:3]), int(rest[4:6]), int(rest[7:9])
    return (year, month, day, hh, mm, ss)


def out_type(v):
    if v[0] == "num":
        return "int" if v[1] in ("int", "integer") else v[1]
    return "dateTime"


def key(v):
    """What makes two literals the same term."""
    if v[0] == "num":
        return ("num", out_type(v), num_key(v))
    if v[0] == "date":
        return ("date", "dateTime", date_key(v))
    return ("other", "", v[1])


def literal(v):
    if v[0] == "other":
        return v[1]
    if len(v) > 3:
        return v[2]        # an abbreviation of Turtle
    return '"%s"^^<%s%s>' % (v[2], XSD, v[1])


def parse(text):
    """The key of a printed literal."""
    m = re.fullmatch(r'"(.*)"\^\^<%s(\w+)>' % re.escape(XSD), text, re.S)
    if m:
        body, typ = m.groups()
        if typ in ("int", "decimal", "float", "double") and re.fullmatch(
                r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", body):
            if typ != "int" or body.strip("+-").isdigit():
                return ("num", typ, num_key(["num", typ, body]))
        if typ == "dateTime" and re.fullmatch(
                r"-?\d+-\d\d-\d\dT\d\d:\d\d:\d\d", body):
            return ("date", typ, date_key(["date", typ, body]))
    return ("other", "", text)


# ----------------------------------------------------------------- generation
def digits(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice("19") * n
    if k == 1:
        return (rng.choice("19") + "0" * n)[:n]
    return "".join(rng.choice("0123456789") for _ in range(n))


def gen_num(rng, near):
    typ = rng.choice(["int", "integer", "decimal", "decimal", "double",
                      "float"])
    k = rng.random()
    n = rng.choice([1, 1, 2, 2, 3, 5, 9, 18, 25])
    e = 0
    if near and k < 0.35:
        # close to another value
        x = num_key(rng.choice(near))
        s = str(abs(x.numerator) if x.denominator == 1 else
                abs(int(x * 10 ** 3)))[:25]
        d = rng.choice([-1, 0, 0, 1, 9, 10])
        ip, fp = str(max(0, int(s) + d)), ""
        if typ not in ("int", "integer"):
            if rng.random() < 0.5:
                c = rng.randint(0, len(ip))
                ip, fp = ip[:c], ip[c:]
            else:
                fp = rng.choice(["", "0", "00", "5", "000000000001"])
    elif typ in ("int", "integer"):
        ip, fp = digits(rng, n), ""
    else:
        f = rng.choice([0, 1, 1, 2, 4, 9, 14])
        ip = digits(rng, min(n, 14)) if rng.random() < 0.7 else "0"
        fp = "0" * rng.choice([0, 0, 1, 3]) + digits(rng, f) if f else ""
    if typ in ("double", "float") and rng.random() < 0.6:
        e = rng.choice([0, 1, -1, 2, -2, 3, -5, 9, -9, 10, -10, 11, 38, -38,
                        99, -99, 100, -100, 300, -300, rng.randint(-30, 30)])
    # the engine keeps 30 digits
    fp = fp[:max(0, 29 - len(ip))]
    if rng.random() < 0.2:
        ip = "0" * rng.randint(1, 3) + ip
    if rng.random() < 0.2 and fp:
        fp += "0" * rng.randint(1, 3)
    if not ip and not fp:
        ip = "0"
    sign = rng.choice(["", "", "", "-", "-", "-", "+"])
    s = sign + ip
    if typ not in ("int", "integer"):
        if fp or rng.random() < 0.2:
            s += "." + fp
        if e or typ in ("double", "float") and rng.random() < 0.05:
            s += rng.choice("eE") + ("+" if e >= 0 and rng.random() < 0.3
                                     else "") + str(e)
    v = ["num", typ, s]
    # the same with an abbreviation of Turtle
    if rng.random() < 0.2 and ip:
        if typ == "integer":
            v = ["num", "integer", s, "bare"]
        elif typ == "decimal" and fp:
            v = ["num", "decimal", s, "bare"]
        elif typ == "double" and re.search("[eE]", s) and (
                fp or "." not in s):
            v = ["num", "double", s, "bare"]
    return v


def gen_date(rng, near):
    typ = rng.choice(["dateTime", "dateTime", "date", "date", "gYear",
                      "gYearMonth"])
    k = rng.random()
    if near and k < 0.4:
        y, m, d, hh, mm, ss = date_key(rng.choice(near))
        j = rng.randrange(7)
        y += rng.choice([-1, 1]) if j == 0 else 0
        y = -y if j == 6 else y
        m = rng.randint(1, 12) if j == 1 or not m else m
        d = rng.randint(1, 28) if j == 2 or not d else d
        hh = rng.randint(0, 23) if j == 3 else hh
        mm = rng.randint(0, 59) if j == 4 else mm
        ss = rng.randint(0, 59) if j == 5 else ss
    else:
        y = rng.choice([rng.randint(1990, 2010), rng.randint(1, 2100),
                        rng.randint(-3000, -1), rng.randint(9990, 10010),
                        rng.randint(-20000, 20000), rng.randint(1, 12),
                        rng.randint(0, 10 ** 10)])
        m, d = rng.randint(1, 12), rng.randint(1, 28)
        hh, mm, ss = rng.choice([(0, 0, 0), (rng.randint(0, 23), 0, 0),
                                 (rng.randint(0, 23), rng.randint(0, 59),
                                  rng.randint(0, 59))])
    if y == 0:
        y = 1
    s = "%s%04d" % ("-" if y < 0 else "", abs(y))
    if typ != "gYear":
        s += "-%02d" % m
    if typ in ("date", "dateTime"):
        s += "-%02d" % d
    if typ == "dateTime":
        s += "T%02d:%02d:%02d" % (hh, mm, ss)
        if rng.random() < 0.15:
            s += "." + digits(rng, rng.randint(1, 6))
    if rng.random() < 0.25:
        s += rng.choice(["Z", "Z", "+01:00", "-05:00", "+14:00", "-00:30"])
    return ["date", typ, s]


OTHER = ['"true"^^<%sboolean>' % XSD, '"INF"^^<%sdouble>' % XSD,
         '"NaN"^^<%sfloat>' % XSD, '"-INF"^^<%sdouble>' % XSD,
         '"x"^^<%sint>' % XSD, '""^^<%sdecimal>' % XSD, '"1.5"^^<%sint>' % XSD,
         '"5"^^<%slong>' % XSD, '"5"^^<http://e/unit>',
         '"5"^^<http://e/t#integer>', '"2000-01-01"^^<http://e/t#date>',
         '"2000-01-01"^^<http://e/date>', '"--05-01"^^<%sgMonthDay>' % XSD,
         '"12:00:00"^^<%stime>' % XSD, '"5"', '"5"@en', '"2000-01-01"',
         '"1.0e"^^<%sdouble>' % XSD, '"P1Y"^^<%sduration>' % XSD,
         '"1.0 "^^<%sdecimal>' % XSD, '"0x10"^^<%sint>' % XSD]
SETTINGS = [None, None, None,
            {"locale": {"language": "en", "country": "US",
                        "ignore-punctuation": True}},
            {"locale": {"language": "de", "country": "DE",
                        "ignore-punctuation": False}},
            {"locale": {"language": "sv", "country": "SE",
                        "ignore-punctuation": False}}]


def respell(rng, v):
    """Another spelling of the same term."""
    if v[0] == "num":
        m = re.fullmatch(r"([+-]?)(.*)", v[2])
        sign, s = m.groups()
        if rng.random() < 0.5:
            s = "0" * rng.randint(1, 2) + s
        if "." in s and not re.search("[eE]", s) and rng.random() < 0.5:
            s += "0"
        if not sign and rng.random() < 0.3:
            sign = "+"
        t = rng.choice(["int", "integer"]) if out_type(v) == "int" else v[1]
        return ["num", t, sign + s]
    if v[0] == "date" and not re.search(r"(Z|[+-]\d\d:\d\d)$", v[2]):
        return v[:2] + [v[2] + rng.choice(["Z", "+02:00", "-11:00"])]
    return v


class P16(Spec):
    id = "P16"
    rule = ("a query on at least three literals with at least two different "
            "values whose answer has at least one row; identified by the "
            "knowledge base and the query")
    cases = {"quick": 900, "thorough": 20000}

    def generate(self, rng, i, tier):
        rows = []
        nums, dates = [], []
        n = rng.choice([4, 8, 15, 30, 60])
        for j in range(n):
            k = rng.random()
            s = rng.randrange(max(2, n // 2))
            if k < 0.5:
                v = gen_num(rng, nums)
                nums.append(v)
            elif k < 0.9:
                v = gen_date(rng, dates)
                dates.append(v)
            else:
                v = ["other", rng.choice(OTHER)]
            rows.append([s, rng.choice("ab"), v])
            if rng.random() < 0.2:
                rows.append([rng.randrange(max(2, n // 2)), rng.choice("ab"),
                             respell(rng, v)])
        settings = rng.choice(SETTINGS)
        qs = []
        for kind, pool in (("num", nums), ("date", dates)):
            if not pool:
                continue
            p = kind + rng.choice("ab")
            qs.append(["order", p, rng.random() < 0.5])
            for _ in range(4):
                c = rng.choice(pool) if rng.random() < 0.5 else (
                    gen_num(rng, nums) if kind == "num"
                    else gen_date(rng, dates))
                if rng.random() < 0.3:
                    c = respell(rng, c)
                c = c[:3]
                if kind == "num" and "." not in c[2] and rng.random() < 0.4 \
                        and not re.search("[eE+]", c[2]):
                    c = ["num", "int", c[2], "bare"]
                qs.append(["cmp", kind + rng.choice("ab"), rng.choice(OPS),
                           c])
            qs.append(["pair", kind, rng.choice(OPS)])
            qs.append(["join", kind])
            qs.append(["minmax", kind + rng.choice("ab")])
            qs.append(["const", kind + rng.choice("ab"),
                       respell(rng, rng.choice(pool))[:3]])
        return {"rows": rows, "settings": settings, "queries": qs}

    # ------------------------------------------------------------------- run
    def run(self, env, case):
        out = Outcome()
        seen = {}
        for s, p, v in case["rows"]:
            seen[("s%d" % s, v[0] + p, key(v))] = v
        ttl = "".join("<s%d> <%s%s> %s .\n" % (s, v[0], p, literal(v))
                      for s, p, v in case["rows"])
        try:
            ix = env.tools.build_index(ttl, settings=case["settings"],
                                       args=["--no-patterns"])
        except IndexFailed as e:
            return out.fail("index not built", detail=e.out[-800:])
        sv = None
        try:
            sv = ix.serve(args=["--no-patterns"])
            self.queries(sv, case, sorted(seen, key=str), out)
        except (HttpError, ServerDied) as e:
            out.fail("no answer", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def ask(self, sv, out, q):
        r = sv.query(q, send=100000)
        out.evaluations += 1
        if r.get("status") != "OK":
            out.fail("query failed", query=q,
                     detail=str(r.get("exception"))[:500])
            return None
        return r["res"]

    def queries(self, sv, case, triples, out):
        preds = sorted({p for _, p, _ in triples})
        # every literal is printed with its value
        for p in preds:
            q = "SELECT ?x ?o WHERE { ?x <%s> ?o }" % p
            res = self.ask(sv, out, q)
            if res is None:
                return
            exp = Counter((s, k) for s, pp, k in triples if pp == p)
            act = Counter((r[0].strip("<>"), parse(r[1])) for r in res)
            if exp != act:
                out.fail("literals with another value", query=q,
                         detail="missing %s unexpected %s" % (
                             str(list((exp - act).items())[:3]),
                             str(list((act - exp).items())[:3])))
                return
            self.note(out, case, q, len(exp), len(res))
        for q in case["queries"]:
            self.query(sv, case, q, triples, out)
            if out.failure:
                out.failure["entry"] = q
                return

    def note(self, out, case, q, n, rows):
        out.count("queries of kind " + q[0] if isinstance(q, list)
                  else "literals printed", 1)
        if n >= 3 and rows:
            out.nontrivial.append(digest([case["rows"], case["settings"], q]))
            if not out.samples and isinstance(q, list) and q[0] == "cmp":
                out.samples.append({"query": q, "rows": case["rows"][:6],
                                    "answers": rows,
                                    "settings": case["settings"]})

    def query(self, sv, case, q, triples, out):
        kind = q[0]
        if kind == "order":
            _, p, desc = q
            want = [k for _, pp, k in triples if pp == p]
            t = "SELECT ?o WHERE { ?x <%s> ?o } ORDER BY %s" % (
                p, "DESC(?o)" if desc else "?o")
            res = self.ask(sv, out, t)
            if res is None:
                return
            got = [parse(r[0])[2] for r in res]
            ok = sorted(got, reverse=desc) == got and len(got) == len(want)
            self.expect(out, ok, t, "sorted", [r[0] for r in res][:40])
            self.note(out, case, q, len(want), len(res))
        elif kind == "cmp":
            _, p, op, c = q
            ck = key(c)
            t = "SELECT ?x ?o WHERE { ?x <%s> ?o . FILTER (?o %s %s) }" % (
                p, op, literal(c))
            res = self.ask(sv, out, t)
            if res is None:
                return
            act = Counter((r[0].strip("<>"), parse(r[1])) for r in res)
            must, may = Counter(), Counter()
            for s, pp, k in triples:
                if pp == p:
                    y = self.holds(op, k, ck)
                    if y is not False:
                        may[(s, k)] += 1
                    if y is True:
                        must[(s, k)] += 1
            ok = not (must - act) and not (act - may)
            self.expect(out, ok, t, list(must.items())[:20],
                        [r for r in res][:20])
            self.note(out, case, q, sum(1 for x in triples if x[1] == p),
                      len(res))
        elif kind == "pair":
            _, w, op = q
            t = "SELECT ?x ?a ?b WHERE { ?x <%sa> ?a . ?x <%sb> ?b . " \
                "FILTER (?a %s ?b) }" % (w, w, op)
            res = self.ask(sv, out, t)
            if res is None:
                return
            act = Counter((r[0].strip("<>"), parse(r[1]), parse(r[2]))
                          for r in res)
            must, may = Counter(), Counter()
            n = 0
            for s, p, k in triples:
                for s2, p2, k2 in triples:
                    if s == s2 and p == w + "a" and p2 == w + "b":
                        n += 1
                        y = self.holds(op, k, k2)
                        if y is not False:
                            may[(s, k, k2)] += 1
                        if y is True:
                            must[(s, k, k2)] += 1
            ok = not (must - act) and not (act - may)
            self.expect(out, ok, t, list(must.items())[:20], res[:20])
            self.note(out, case, q, n, len(res))
        elif kind == "join":
            w = q[1]
            t = "SELECT ?x ?y WHERE { ?x <%sa> ?o . ?y <%sb> ?o }" % (w, w)
            res = self.ask(sv, out, t)
            if res is None:
                return
            exp = Counter((s, s2) for s, p, k in triples
                          for s2, p2, k2 in triples
                          if p == w + "a" and p2 == w + "b" and k == k2)
            act = Counter(tuple(y.strip("<>") for y in r) for r in res)
            self.expect(out, exp == act, t, list(exp.items())[:20], res[:20])
            self.note(out, case, q, len(exp), len(res))
        elif kind == "minmax":
            p = q[1]
            vals = [k for _, pp, k in triples if pp == p]
            if not vals:
                return
            t = "SELECT (MIN(?o) as ?n) (MAX(?o) as ?m) " \
                "(COUNT(DISTINCT ?o) as ?c) WHERE { ?x <%s> ?o }" % p
            res = self.ask(sv, out, t)
            if res is None:
                return
            ok = len(res) == 1 and \
                parse(res[0][0])[2] == min(k[2] for k in vals) and \
                parse(res[0][1])[2] == max(k[2] for k in vals) and \
                res[0][2].strip('"').split('"')[0] == str(len(set(vals)))
            self.expect(out, ok, t, [
                str(min(k[2] for k in vals)), str(max(k[2] for k in vals)),
                len(set(vals))], res)
            self.note(out, case, q, len(vals), len(res))
        elif kind == "const":
            _, p, c = q
            t = "SELECT ?x WHERE { ?x <%s> %s }" % (p, literal(c))
            res = self.ask(sv, out, t)
            if res is None:
                return
            exp = sorted(s for s, pp, k in triples if pp == p and k == key(c))
            act = sorted(r[0].strip("<>") for r in res)
            self.expect(out, exp == act, t, exp, act)
            self.note(out, case, q, sum(1 for x in triples if x[1] == p),
                      len(res))

    def expect(self, out, ok, query, exp, act):
        if not ok:
            out.fail("wrong answer", query=query, detail="expected %s got %s"
                     % (exp, act))

    def holds(self, op, a, b):
        """None if open: equal values of different types."""
        if a[2] == b[2] and a[1] != b[1]:
            return None
        x, y = a[2], b[2]
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                "=": x == y, "!=": x != y}[op]

    def shrink(self, case, fail):
        if fail.get("entry") and len(case["queries"]) > 1:
            yield dict(case, queries=[fail["entry"]])
            return
        if not fail.get("entry") and case["queries"]:
            yield dict(case, queries=[])
        for rows in ddmin_lists(case["rows"]):
            if rows:
                yield dict(case, rows=rows)
        if case["settings"]:
            yield dict(case, settings=None)


SPEC = P16()
