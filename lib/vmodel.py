"""Reference model: a small, direct evaluator for the query fragment.

A term is its textual form as a string (``<iri>``, ``"lit"``, ``"lit"@en``,
``"5"^^<...#int>``, ``_:b``).  A query is a JSON-able AST:

query  = {"select": [item...], "where": group, "distinct": bool,
          "group_by": [var...], "having": [filter...],
          "order_by": [["asc"|"desc", var]...], "limit": n, "offset": n}
item   = "?v" | ["agg", fn, distinct, "?arg", "?alias", sep]
group  = list of
   ["t", s, p, o]                  triple pattern, p: term | "?v" | path
   ["filter", f]                   f as below
   ["optional", group] | ["union", group, group] | ["minus", group]
   ["group", group] | ["sub", query]
   ["values", [var...], [[term...]...]]
   ["bind", expr, "?v"]            expr: ["const", term]|["int", n]|["var", v]
   path = ["iri", t] | ["inv", p] | ["seq", p...] | ["alt", p...]
        | ["plus", p] | ["star", p] | ["opt", p] | ["max", p, n]
filter = ["cmp", op, "?v", term|"?w"|["num", text]]
       | ["lang", "?v", tag] | ["regex", "?v", pattern, flags]
       | ["prefixes", [["?v", prefix]...]]

Solutions are dicts var -> term; a missing key is an unbound variable.
"""
import functools
import re
from decimal import Decimal

XSD = "http://www.w3.org/2001/XMLSchema#"
INT = '"^^<%sint>' % XSD


class Unsupported(Exception):
    pass


def is_var(x):
    return isinstance(x, str) and x.startswith("?")


# --------------------------------------------------------------------------
# term ordering (only for the term shapes the generators put in one column)
NUM_RE = re.compile(
    r'^"([+-]?[0-9]+(?:\.[0-9]+)?)"\^\^<' + re.escape(XSD) +
    r'(int|float|double|decimal)>$')
DATE_RE = re.compile(
    r'^"(-?)([0-9]+)-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})'
    r'"\^\^<' + re.escape(XSD) + r'dateTime>$')


@functools.lru_cache(maxsize=200000)
def num_value(t):
    m = NUM_RE.match(t)
    return (Decimal(m.group(1)), m.group(2)) if m else None


def split_literal(t):
    """'"abc"@en' -> ('abc', '@en')"""
    i = t.rfind('"')
    return t[1:i], t[i + 1:]


def str_key(s):
    """Collation of strings over [0-9A-Za-z]: letters first compared without
    case, then lower case before upper case."""
    return (s.lower(), [c.isupper() for c in s])


@functools.lru_cache(maxsize=200000)
def order_key(t):
    n = num_value(t)
    if n:
        return ("num", n[0], "DFIT".index({"double": "D", "float": "F",
                                           "int": "I", "decimal": "T"}[n[1]]))
    m = DATE_RE.match(t)
    if m:
        y = int(m.group(2))
        if m.group(1):
            y = -y
        return ("date", y) + tuple(int(m.group(i)) for i in range(3, 8))
    if t.startswith('"'):
        v, rest = split_literal(t)
        return ("lit",) + str_key(v) + (rest,)
    if t.startswith("<"):
        return ("iri",) + str_key(re.sub(r"[^0-9A-Za-z]", "", t))
    raise Unsupported("no order for " + t)


def kind(t):
    return order_key(t)[0]


# --------------------------------------------------------------------------
# predicate of the virtual triples "subject has some triple with predicate"
HAS = "<QLever-internal-function/has-predicate>"


class KB:
    def __init__(self, triples, has=False):
        seen = {}
        for t in triples:
            seen[tuple(t)] = None
        self.triples = list(seen)
        self.by_p = {}
        self.by_sp = {}
        self.by_po = {}
        self.by_s = {}
        self.by_o = {}
        for t in self.triples:
            s, p, o = t
            self.by_p.setdefault(p, []).append(t)
            self.by_sp.setdefault((s, p), []).append(t)
            self.by_po.setdefault((p, o), []).append(t)
            self.by_s.setdefault(s, []).append(t)
            self.by_o.setdefault(o, []).append(t)
        for s, p in dict.fromkeys((t[0], t[1]) for t in self.triples) \
                if has else ():
            t = (s, HAS, p)
            self.by_p.setdefault(HAS, []).append(t)
            self.by_sp.setdefault((s, HAS), []).append(t)
            self.by_po.setdefault((HAS, p), []).append(t)

    def match(self, s, p, o):
        """All triples that match; None = anything."""
        if s is not None and p is not None:
            c = self.by_sp.get((s, p), [])
        elif p is not None and o is not None:
            c = self.by_po.get((p, o), [])
        elif p is not None:
            c = self.by_p.get(p, [])
        elif s is not None:
            c = self.by_s.get(s, [])
        elif o is not None:
            c = self.by_o.get(o, [])
        else:
            c = self.triples
        return [t for t in c if (s is None or t[0] == s)
                and (p is None or t[1] == p) and (o is None or t[2] == o)]

    def nodes(self):
        return {t[0] for t in self.triples} | {t[2] for t in self.triples}


# --------------------------------------------------------------------------
def triple_rows(kb, s, p, o):
    """Solutions of one triple pattern."""
    pos = [s, p, o]
    cand = kb.match(*[None if is_var(x) else x for x in pos])
    vs = [(i, x) for i, x in enumerate(pos) if is_var(x)]
    res = []
    for t in cand:
        row = {}
        ok = True
        for i, x in vs:
            if row.setdefault(x, t[i]) != t[i]:
                ok = False
                break
        if ok:
            res.append(row)
    return res


def path_pairs(kb, path):
    """List (bag) of the (from, to) pairs connected by the path, without those
    that are only connected by the empty path."""
    op = path[0]
    if op == "iri":
        return [(t[0], t[2]) for t in kb.match(None, path[1], None)]
    if op == "inv":
        return [(b, a) for a, b in path_pairs(kb, path[1])]
    if op == "seq":
        cur, null = path_pairs(kb, path[1]), path_can_be_empty(path[1])
        for nxt in path[2:]:
            m, pairs = {}, path_pairs(kb, nxt)
            for a, b in pairs:
                m.setdefault(a, []).append(b)
            nxt_null = path_can_be_empty(nxt)
            cur = [(a, c) for a, b in cur for c in m.get(b, ())] + \
                (cur if nxt_null else []) + (pairs if null else [])
            null = null and nxt_null
        return cur
    if op == "alt":
        res = []
        for x in path[1:]:
            res += path_pairs(kb, x)
        return res
    if op in ("plus", "star", "opt", "max"):
        m = {}
        for a, b in path_pairs(kb, path[1]):
            m.setdefault(a, set()).add(b)
        limit = 1 if op == "opt" else path[2] if op == "max" else None
        res = set()
        for a in m:
            seen, level, n = set(), {a}, 0
            while level and (limit is None or n < limit):
                n += 1
                level = {c for b in level for c in m.get(b, ())} - seen
                seen |= level
            res |= {(a, b) for b in seen}
        return sorted(res)
    raise Unsupported(op)


def path_can_be_empty(path):
    op = path[0]
    if op in ("star", "opt", "max"):
        return True
    if op == "iri":
        return False
    if op == "alt":
        return any(path_can_be_empty(x) for x in path[1:])
    return all(path_can_be_empty(x) for x in path[1:])


def path_has_empty(path):
    """Whether some part of the path can be empty."""
    return path_can_be_empty(path) or any(
        path_has_empty(x) for x in path[1:] if isinstance(x, list))


class TooBig(Exception):
    """The intermediate result is larger than a generated query may need."""


JOIN_LIMIT = 10 ** 9


def join(a, b, va, vb):
    """Bag join; va/vb: sets of variables that are bound in every row."""
    shared = sorted(va & vb)
    if not shared:
        if len(a) * len(b) > JOIN_LIMIT:
            raise TooBig()
        return [{**x, **y} for x in a for y in b]
    idx = {}
    for y in b:
        idx.setdefault(tuple(y[v] for v in shared), []).append(y)
    res = []
    for x in a:
        for y in idx.get(tuple(x[v] for v in shared), ()):
            res.append({**x, **y})
        if len(res) > JOIN_LIMIT:
            raise TooBig()
    return res


def group_vars(group):
    """(possibly bound, certainly bound) variables of a group."""
    poss, cert = set(), set()
    for e in group:
        k = e[0]
        if k == "t":
            v = {x for x in (e[1], e[2], e[3]) if is_var(x)}
            poss |= v
            cert |= v
        elif k == "optional":
            poss |= group_vars(e[1])[0]
        elif k == "union":
            p1, c1 = group_vars(e[1])
            p2, c2 = group_vars(e[2])
            poss |= p1 | p2
            cert |= c1 & c2
        elif k == "group":
            p, c = group_vars(e[1])
            poss |= p
            cert |= c
        elif k == "sub":
            p, c = query_vars(e[1])
            poss |= p
            cert |= c
        elif k == "values":
            poss |= set(e[1])
            cert |= set(e[1])
        elif k == "bind":
            poss.add(e[2])
            if e[1][0] != "var" or e[1][1] in cert:
                cert.add(e[2])
    return poss, cert


def query_vars(q):
    p, c = group_vars(q["where"])
    rp, rc = set(), set()
    for it in q["select"]:
        if isinstance(it, str):
            rp.add(it)
            if it in c:
                rc.add(it)
        else:
            rp.add(it[4])
            rc.add(it[4])
    return rp, rc


def eval_group(kb, group):
    rows, bound, poss = [{}], set(), set()
    pending = list(group)
    filters = []
    first = True
    while pending:
        e = pending.pop(0)
        k = e[0]
        if k == "filter":
            filters.append(e[1])
            continue
        if k == "t":
            # take the whole run of triples and order it greedily
            run = [e]
            while pending and pending[0][0] in ("t", "filter"):
                x = pending.pop(0)
                if x[0] == "filter":
                    filters.append(x[1])
                else:
                    run.append(x)
            tabs = []
            for t in run:
                if isinstance(t[2], list):
                    tabs.append(({x for x in (t[1], t[3]) if is_var(x)},
                                 _path_rows(kb, t)))
                else:
                    tabs.append(({x for x in t[1:] if is_var(x)},
                                 triple_rows(kb, *t[1:])))
            while tabs:
                conn = [x for x in tabs if first or (x[0] & bound)] or tabs
                best = min(conn, key=lambda x: len(x[1]))
                tabs.remove(best)
                rows = best[1] if first else join(rows, best[1], bound,
                                                  best[0])
                bound |= best[0]
                poss |= best[0]
                first = False
            continue
        if k == "optional":
            sub, (sp, sc) = eval_group(kb, e[1]), group_vars(e[1])
            rows = left_join(rows, sub, sorted(bound & sc)) if not first \
                else sub
            poss |= sp
            if first:
                bound |= sc
        elif k == "minus":
            sub, (sp, sc) = eval_group(kb, e[1]), group_vars(e[1])
            sh = sorted(bound & sc)
            keys = {tuple(r[v] for v in sh) for r in sub}
            if sh:
                rows = [r for r in rows
                        if tuple(r[v] for v in sh) not in keys]
        elif k == "bind":
            ex = e[1]
            for r in rows:
                if ex[0] == "const":
                    r[e[2]] = ex[1]
                elif ex[0] == "int":
                    r[e[2]] = str(ex[1])
                elif ex[1] in r:
                    r[e[2]] = r[ex[1]]
            rows = [dict(r) for r in rows]
            poss.add(e[2])
            if ex[0] != "var" or ex[1] in bound:
                bound.add(e[2])
        else:
            if k == "union":
                sub = eval_group(kb, e[1]) + eval_group(kb, e[2])
                sp, sc = group_vars([e])
            elif k == "group":
                sub, (sp, sc) = eval_group(kb, e[1]), group_vars(e[1])
            elif k == "sub":
                sub, (sp, sc) = eval_sub(kb, e[1]), query_vars(e[1])
            elif k == "values":
                sub = [dict(zip(e[1], r)) for r in e[2]]
                sp = sc = set(e[1])
            else:
                raise Unsupported(k)
            rows = [dict(r) for r in sub] if first else join(rows, sub, bound,
                                                             sc)
            bound |= sc
            poss |= sp
        first = False
    for f in filters:
        rows = [r for r in rows if filter_ok(f, r)]
    return rows


def left_join(rows, sub, shared):
    idx = {}
    for y in sub:
        idx.setdefault(tuple(y[v] for v in shared), []).append(y)
    res = []
    for x in rows:
        m = idx.get(tuple(x[v] for v in shared))
        if m:
            res += [{**x, **y} for y in m]
        else:
            res.append(dict(x))
    return res


def _path_rows(kb, t):
    s, path, o = t[1], t[2], t[3]
    pairs = path_pairs(kb, path)
    res = []
    for a, b in pairs:
        if not is_var(s) and s != a or not is_var(o) and o != b:
            continue
        if s == o and a != b:
            continue
        r = {}
        if is_var(s):
            r[s] = a
        if is_var(o):
            r[o] = b
        res.append(r)
    return res


CMP = {"=": lambda c: c == 0, "!=": lambda c: c != 0, "<": lambda c: c < 0,
       "<=": lambda c: c <= 0, ">": lambda c: c > 0, ">=": lambda c: c >= 0}


def compare_terms(a, b):
    if a == b:
        return 0
    na, nb = num_value(a), num_value(b)
    if na and nb and na[0] != nb[0]:
        return -1 if na[0] < nb[0] else 1
    ka, kb_ = order_key(a), order_key(b)
    if ka[0] != kb_[0]:
        return -1 if ka[0] < kb_[0] else 1
    return -1 if ka < kb_ else (1 if ka > kb_ else 0)


def filter_ok(f, r):
    k = f[0]
    if k == "cmp":
        a = r[f[2]]
        b = f[3]
        if isinstance(a, tuple) or _plain_num(a):
            return having_ok(f, r)
        if isinstance(b, list):          # ["num", text]
            b = '"%s"^^<%s%s>' % (b[1], XSD,
                                  "float" if "." in b[1] else "int")
            na, nb = num_value(a), num_value(b)
            if na is None:
                raise Unsupported("numeric comparison with " + a)
            c = (na[0] > nb[0]) - (na[0] < nb[0])
            return CMP[f[1]](c)
        if is_var(b):
            b = r[b]
        return CMP[f[1]](compare_terms(a, b))
    if k == "lang":
        return r[f[1]].startswith('"') and r[f[1]].endswith('"@' + f[2])
    if k == "regex":
        fl = re.I if "i" in f[3] else 0
        return re.search(f[2], r[f[1]], fl) is not None
    if k == "prefixes":
        return any(r[v].lower().startswith(p.lower()) for v, p in f[1])
    raise Unsupported(k)


# --------------------------------------------------------------------------
def sort_rows(rows, order):
    def cmp(a, b):
        for d, v in order:
            c = compare_terms(a[v], b[v]) if not _plain_num(a[v]) else \
                (Decimal(a[v]) > Decimal(b[v])) - \
                (Decimal(a[v]) < Decimal(b[v]))
            if c:
                return -c if d == "desc" else c
        return 0
    return sorted(rows, key=functools.cmp_to_key(cmp))


def _plain_num(x):
    return re.match(r"^-?[0-9]+(\.[0-9]+)?$", x) is not None


def aggregate(fn, distinct, vals):
    """Value of an aggregate over the (bound) values, as a python object."""
    if distinct:
        vals = list(dict.fromkeys(vals))
    if fn == "count":
        return str(len(vals))
    if fn == "sample":
        return ("any", sorted(set(vals)))
    if fn in ("min", "max"):
        if not vals:
            return ""
        if isinstance(vals[0], tuple):
            return (min if fn == "min" else max)(vals, key=lambda v: v[1])
        if all(_plain_num(v) for v in vals):
            return (min if fn == "min" else max)(vals, key=Decimal)
        key = functools.cmp_to_key(compare_terms)
        return (min if fn == "min" else max)(vals, key=key)
    if vals and isinstance(vals[0], tuple):
        nums = [v[1] for v in vals]
        scale = sum((v[2] for v in vals), Decimal(0))
    else:
        if any(not _plain_num(v) and num_value(v) is None for v in vals):
            raise Unsupported("%s of other values than numbers" % fn)
        nums = [Decimal(v) if _plain_num(v) else num_value(v)[0]
                for v in vals]
        scale = sum((abs(x) for x in nums), Decimal(0))
    if fn == "sum":
        return ("num", sum(nums, Decimal(0)), scale)
    if fn == "avg":
        return ("num", sum(nums, Decimal(0)) / len(nums), scale / len(nums))
    raise Unsupported(fn)


def eval_query(kb, q):
    """Rows (dicts restricted to the selected variables, in order if the query
    orders) before DISTINCT/LIMIT/OFFSET are applied."""
    rows = eval_group(kb, q["where"])
    if q.get("group_by") or any(not isinstance(i, str) for i in q["select"]):
        rows = eval_grouping(kb, q, rows)
    return rows


def eval_grouping(kb, q, rows):
    gb = q.get("group_by") or []
    groups = {}
    for r in rows:
        groups.setdefault(tuple(r.get(v) for v in gb), []).append(r)
    res = []
    for key, members in groups.items():
        out = {v: x for v, x in zip(gb, key) if x is not None}
        for it in q["select"]:
            if isinstance(it, str):
                continue
            _, fn, dis, arg, alias = it[:5]
            vals = [m[arg] for m in members if arg in m]
            if fn == "concat":
                sep = it[5]
                if dis:
                    vals = list(dict.fromkeys(vals))
                out[alias] = ("bag", sep, tuple(sorted(plain(v) for v in vals)))
            else:
                out[alias] = aggregate(fn, dis, vals)
        res.append(out)
    for f in q.get("having") or []:
        res = [r for r in res if having_ok(f, r)]
    return res


def having_ok(f, r):
    a = r[f[2]]
    if not isinstance(f[3], list) and not is_var(f[3]):
        # the concatenation of a group
        return CMP[f[1]](0 if a[2] == (f[3],) else 1)
    b = Decimal(f[3][1]) if isinstance(f[3], list) else r[f[3]]
    a, b = (x[1] if isinstance(x, tuple) else Decimal(x) for x in (a, b))
    return CMP[f[1]]((a > b) - (a < b))


def plain(t):
    """The form GROUP_CONCAT uses for a term."""
    return t


def project(rows, select):
    names = [i if isinstance(i, str) else i[4] for i in select]
    return [tuple(r.get(v, "") for v in names) for r in rows]


def eval_sub(kb, q):
    rows = eval_query(kb, q)
    names = [i if isinstance(i, str) else i[4] for i in q["select"]]
    rows = [{v: r[v] for v in names if v in r} for r in rows]
    if q.get("distinct"):
        rows = [dict(x) for x in
                dict.fromkeys(tuple(sorted(r.items())) for r in rows)]
    off = q.get("offset") or 0
    if q.get("order_by") and (off or q.get("limit") is not None):
        rows = sort_rows(rows, q["order_by"])
    end = None if q.get("limit") is None else off + q["limit"]
    return rows[off:end]


# --------------------------------------------------------------------------
# rendering
def render_term(t):
    return t


def render_path(p, top=True):
    op = p[0]
    if op == "iri":
        return p[1]
    if op == "inv":
        s = render_path(p[1], False)
        return "^" + ("(" + s + ")" if p[1][0] == "inv" else s)
    if op == "seq":
        s = "/".join(render_path(x, False) for x in p[1:])
    elif op == "alt":
        s = "|".join(render_path(x, False) for x in p[1:])
    else:
        s = render_path(p[1], False)
        if p[1][0] not in ("iri", "seq", "alt"):
            s = "(" + s + ")"
        return s + {"plus": "+", "star": "*", "opt": "?",
                    "max": "*%s" % p[-1]}[op]
    return s if top else "(" + s + ")"


def esc_lit(t):
    """Term as written in a query (escape inner quotes)."""
    if t.startswith('"'):
        v, rest = split_literal(t)
        return '"' + v.replace('"', '\\"') + '"' + rest
    return t


def render_filter(f):
    k = f[0]
    if k == "cmp":
        b = f[3][1] if isinstance(f[3], list) else esc_lit(f[3])
        return "(%s %s %s)" % (f[2], f[1], b)
    if k == "lang":
        return '(lang(%s) = "%s")' % (f[1], f[2])
    if k == "regex":
        pat = f[2].replace('"', '\\"')
        if f[3]:
            return 'regex(%s, "%s", "%s")' % (f[1], pat, f[3])
        return 'regex(%s, "%s")' % (f[1], pat)
    if k == "prefixes":
        parts = ['regex(%s, "^%s")' % (v, p.replace('"', '\\"'))
                 for v, p in f[1]]
        if len(parts) == 1:
            return parts[0]
        return "(" + " || ".join(parts) + ")"
    raise Unsupported(k)


def render_group(g):
    out = []
    for e in g:
        k = e[0]
        if k == "t":
            p = render_path(e[2]) if isinstance(e[2], list) else esc_lit(e[2])
            out.append("%s %s %s ." % (esc_lit(e[1]), p, esc_lit(e[3])))
        elif k == "filter":
            out.append("FILTER " + render_filter(e[1]) + " .")
        elif k == "optional":
            out.append("OPTIONAL { %s }" % render_group(e[1]))
        elif k == "union":
            out.append("{ %s } UNION { %s }" % (render_group(e[1]),
                                                render_group(e[2])))
        elif k == "minus":
            out.append("MINUS { %s }" % render_group(e[1]))
        elif k == "group":
            out.append("{ %s }" % render_group(e[1]))
        elif k == "sub":
            out.append("{ %s }" % render_query(e[1]))
        elif k == "values":
            if len(e[1]) == 1:
                out.append("VALUES %s { %s }" % (
                    e[1][0], " ".join(esc_lit(r[0]) for r in e[2])))
            else:
                out.append("VALUES ( %s ) { %s }" % (
                    " ".join(e[1]),
                    " ".join("( %s )" % " ".join(esc_lit(x) for x in r)
                             for r in e[2])))
        elif k == "bind":
            ex = e[1]
            out.append("BIND ( %s AS %s ) ." % (
                esc_lit(ex[1]) if ex[0] == "const" else ex[1], e[2]))
        else:
            raise Unsupported(k)
    return " ".join(out)


def render_item(it):
    if isinstance(it, str):
        return it
    _, fn, dis, arg, alias = it[:5]
    d = "DISTINCT " if dis else ""
    if fn == "concat":
        if it[5] == " " and len(it) > 6 and it[6]:
            return "(GROUP_CONCAT(%s%s) AS %s)" % (d, arg, alias)
        return '(GROUP_CONCAT(%s%s; SEPARATOR="%s") AS %s)' % (d, arg, it[5],
                                                              alias)
    return "(%s(%s%s) AS %s)" % (fn.upper(), d, arg, alias)


def render_query(q):
    s = "SELECT "
    if q.get("distinct"):
        s += "DISTINCT "
    s += " ".join(render_item(i) for i in q["select"])
    s += " WHERE { " + render_group(q["where"]) + " }"
    if q.get("group_by"):
        s += " GROUP BY " + " ".join(q["group_by"])
    for f in q.get("having") or []:
        s += " HAVING " + render_filter(f)
    if q.get("order_by"):
        s += " ORDER BY " + " ".join(v if d == "plain" else "%s(%s)" %
                                     (d.upper(), v) for d, v in q["order_by"])
    if q.get("limit") is not None:
        s += " LIMIT %d" % q["limit"]
    if q.get("offset") is not None:
        s += " OFFSET %d" % q["offset"]
    return s


def to_turtle(triples):
    return "".join("%s %s %s .\n" % (s, p, ttl_term(o)) for s, p, o in triples)


def ttl_term(t):
    if t.startswith('"'):
        v, rest = split_literal(t)
        v = v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") \
             .replace("\r", "\\r")
        return '"' + v + '"' + rest
    return t
