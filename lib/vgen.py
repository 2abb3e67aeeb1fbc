"""Generators for knowledge bases and queries (pure functions of the rng)."""
import json

from vmodel import XSD, group_vars, is_var

WORDS = ["alpha", "beta", "gamma", "delta", "ant", "bee", "cat", "dog", "eel",
         "fox", "al", "alp", "be", "Alpha", "Beta", "catfish", "x", "zebra",
         "a1", "b2", "k9", "route66"]
LANGS = ["en", "de", "fr"]


def iri(name):
    return "<%s>" % name


def lit_int(n):
    return '"%d"^^<%sint>' % (n, XSD)


def lit_dec(s, typ="decimal"):
    return '"%s"^^<%s%s>' % (s, XSD, typ)


def lit_date(y, m, d, hh=0, mm=0, ss=0):
    return '"%d-%02d-%02dT%02d:%02d:%02d"^^<%sdateTime>' % (y, m, d, hh, mm,
                                                          ss, XSD)


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def chance(rng, p):
    return rng.random() < p


def gen_kb(rng, n_ent=None, n_pred=None, n_trip=None, lits=True,
           langs=True):
    """Typed random graph.

    <pK>     entity -> entity, <nameK> plain strings, <labelK> language tagged
    strings, <numK> integers, <decK> decimals, <dateK> dateTimes.
    """
    n_ent = n_ent or rng.randint(2, 14)
    n_pred = n_pred or rng.randint(1, 5)
    n_trip = n_trip or rng.randint(3, 60)
    ents = [iri("e%d" % i) for i in range(n_ent)]
    preds = [iri("p%d" % i) for i in range(n_pred)]
    # Zipf-like popularity so that hubs and rare nodes both occur.
    pop = [1.0 / (i + 1) if chance(rng, 0.5) else 0.5 for i in range(n_ent)]
    triples = []
    shapes = {p: pick(rng, ["any", "any", "func", "chain", "hub", "loop"])
              for p in preds}
    for _ in range(n_trip):
        p = pick(rng, preds)
        sh = shapes[p]
        s = rng.choices(range(n_ent), pop)[0]
        if sh == "func":
            o = (s * 7 + 3) % n_ent
        elif sh == "chain":
            o = (s + 1) % n_ent
        elif sh == "hub":
            o = rng.randrange(min(2, n_ent))
        elif sh == "loop" and chance(rng, 0.4):
            o = s
        else:
            o = rng.choices(range(n_ent), pop)[0]
        triples.append([ents[s], p, ents[o]])
    if lits:
        for _ in range(rng.randint(0, n_trip)):
            s = pick(rng, ents)
            k = rng.randrange(6)
            j = rng.randrange(2)
            if k == 0:
                triples.append([s, iri("name%d" % j),
                                '"%s"' % pick(rng, WORDS)])
            elif k == 1 and langs:
                lang = pick(rng, LANGS)
                triples.append([s, iri("label%d" % j), '"%s%s"@%s' %
                                (pick(rng, WORDS), lang, lang)])
            elif k == 2:
                triples.append([s, iri("num%d" % j),
                                lit_int(gen_int(rng))])
            elif k == 3:
                triples.append([s, iri("dec%d" % j), lit_dec(gen_dec(rng))])
            elif k == 4:
                triples.append([s, iri("date%d" % j), gen_date(rng)])
            else:
                triples.append([s, "<type>", iri("T%d" % rng.randrange(3))])
    return triples


def gen_int(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.randint(-5, 5)
    if k == 1:
        return rng.randint(-1200, 1200)
    if k == 2:
        return pick(rng, [0, 1, -1, 9, 10, 11, 99, 100, 101, -9, -10, -11,
                          -99, -100, 1000000, -1000000])
    if k == 3:
        return rng.randint(-10**9, 10**9)
    return rng.randint(0, 30)


def gen_dec(rng):
    """Canonical decimal text (as the engine prints it)."""
    k = rng.randrange(4)
    if k == 0:
        v = "%d.%d" % (rng.randint(0, 20), rng.randint(0, 9))
    elif k == 1:
        v = "0." + "0" * rng.randint(0, 4) + str(rng.randint(1, 999))
    elif k == 2:
        v = "%d.%02d" % (rng.randint(0, 2000), rng.randint(0, 99))
    else:
        v = pick(rng, ["0.5", "1.5", "0.25", "10.0", "9.9", "99.5", "100.25",
                       "0.1", "0.01", "0.001"])
    v = v.rstrip("0")
    if v.endswith("."):
        v += "0"
    if chance(rng, 0.3) and v != "0.0":
        v = "-" + v
    return v


def gen_date(rng):
    return lit_date(rng.randint(1, 2100) if chance(rng, 0.3)
                    else rng.randint(1990, 2005), rng.randint(1, 12),
                    rng.randint(1, 28), rng.randint(0, 23) if
                    chance(rng, 0.3) else 0,
                    rng.randint(0, 59) if chance(rng, 0.2) else 0,
                    rng.randint(0, 59) if chance(rng, 0.2) else 0)


# --------------------------------------------------------------------------
def gen_bgp(rng, triples, n=None, var_pred=0.12, max_const=0.35):
    """A connected basic graph pattern that generalises a connected piece of
    the KB, so it has at least one solution (unless a constant is mutated)."""
    n = n or rng.choices([1, 2, 3, 4, 5, 6], [2, 4, 5, 4, 2, 1])[0]
    by_node = {}
    for t in triples:
        by_node.setdefault(t[0], []).append(t)
        by_node.setdefault(t[2], []).append(t)
    t = pick(rng, triples)
    walk = [t]
    nodes = [t[0], t[2]]
    for _ in range(n - 1):
        v = pick(rng, nodes)
        t = pick(rng, by_node[v])
        walk.append(t)
        nodes += [t[0], t[2]]
    mapping = {}
    counter = [0]

    def var_for(x):
        if x in mapping and chance(rng, 0.93):
            return mapping[x]
        mapping[x] = "?v%d" % counter[0]
        counter[0] += 1
        return mapping[x]

    pconst = rng.random() * max_const
    pats = []
    for s, p, o in walk:
        ps = s if chance(rng, pconst) else var_for(s)
        po = o if chance(rng, pconst * (0.5 if not is_entity(o) else 1)) \
            else var_for(o)
        pp = "?q%d" % rng.randrange(2) if chance(rng, var_pred) else p
        if not is_var(ps) and not is_var(po) and not is_var(pp):
            ps = var_for(s)
        pats.append(["t", ps, pp, po])
    pats = repair_connect(rng, pats)
    seen = []
    for x in pats:
        if x not in seen:
            seen.append(x)
    return seen


def is_entity(x):
    return x.startswith("<")


def tvars(t):
    return {x for x in t[1:4] if is_var(x)}


def connected(pats):
    if not pats:
        return True
    todo = list(pats[1:])
    vs = set(tvars(pats[0]))
    changed = True
    while todo and changed:
        changed = False
        for t in list(todo):
            if tvars(t) & vs:
                vs |= tvars(t)
                todo.remove(t)
                changed = True
    return not todo


def repair_connect(rng, pats):
    """Keeps the variable-connected component of the first pattern."""
    keep = [pats[0]]
    vs = set(tvars(pats[0]))
    todo = pats[1:]
    changed = True
    while changed:
        changed = False
        for t in list(todo):
            if tvars(t) & vs:
                keep.append(t)
                vs |= tvars(t)
                todo.remove(t)
                changed = True
    rng.shuffle(keep)
    return keep


def full_scan_ok(pats):
    """The engine executes a pattern of three variables only when it meets the
    rest of the pattern in exactly one variable, and only one of them."""
    full = [t for t in pats if not isinstance(t[2], list) and
            all(is_var(x) for x in t[1:4])]
    if not full:
        return True
    if len(full) > 1 or len(pats) < 2:
        return False
    f = full[0]
    if len(tvars(f)) != 3:
        return False
    rest = set()
    for t in pats:
        if t is not f:
            rest |= tvars(t)
    return len(rest & tvars(f)) == 1


def all_vars(group):
    return sorted(group_vars(group)[0])


def pick_select(rng, vs, at_least=1):
    k = rng.randint(at_least, len(vs))
    sel = rng.sample(vs, k)
    return sel


# --------------------------------------------------------------------------
# shrinking of queries: smaller ASTs
def shrink_group(g):
    for i in range(len(g)):
        yield g[:i] + g[i + 1:]
    for i, e in enumerate(g):
        k = e[0]
        if k in ("optional", "minus", "group"):
            for s in shrink_group(e[1]):
                if s:
                    yield g[:i] + [[k, s]] + g[i + 1:]
            if k == "group":
                yield g[:i] + e[1] + g[i + 1:]
        elif k == "union":
            yield g[:i] + e[1] + g[i + 1:]
            yield g[:i] + e[2] + g[i + 1:]
            for s in shrink_group(e[1]):
                if s:
                    yield g[:i] + [[k, s, e[2]]] + g[i + 1:]
            for s in shrink_group(e[2]):
                if s:
                    yield g[:i] + [[k, e[1], s]] + g[i + 1:]
        elif k == "sub":
            for s in shrink_query(e[1]):
                yield g[:i] + [["sub", s]] + g[i + 1:]
        elif k == "values" and len(e[2]) > 1:
            for j in range(len(e[2])):
                yield g[:i] + [[k, e[1], e[2][:j] + e[2][j + 1:]]] + g[i + 1:]
        elif k == "t" and isinstance(e[2], list):
            for p in shrink_path(e[2]):
                yield g[:i] + [[k, e[1], p, e[3]]] + g[i + 1:]


def shrink_path(p):
    if p[0] == "iri":
        return
    for x in p[1:]:
        if isinstance(x, list):
            yield x
    if p[0] in ("seq", "alt") and len(p) > 3:
        for i in range(1, len(p)):
            yield p[:i] + p[i + 1:]
    for i in range(1, len(p)):
        for x in shrink_path(p[i]) if isinstance(p[i], list) else ():
            yield p[:i] + [x] + p[i + 1:]


def shrink_query(q):
    for key in ("limit", "offset", "order_by", "having", "distinct"):
        if q.get(key):
            r = dict(q)
            r.pop(key)
            yield r
    for key in ("order_by", "having", "select", "group_by"):
        if len(q.get(key) or []) > 1:
            for i in range(len(q[key])):
                r = dict(q)
                r[key] = q[key][:i] + q[key][i + 1:]
                yield r
    for g in shrink_group(q["where"]):
        if g:
            r = dict(q)
            r["where"] = g
            yield r


# --------------------------------------------------------------------------
# filters
def column_kinds(rows, vs):
    """var -> (kind, values) for variables with one kind of values."""
    from vmodel import Unsupported, kind, num_value
    res = {}
    for v in vs:
        vals = [r[v] for r in rows if v in r]
        if not vals:
            continue
        try:
            ks = {kind(x) for x in vals}
        except Unsupported:
            continue
        if len(ks) != 1:
            continue
        k = ks.pop()
        if k == "num":
            types = {num_value(x)[1] for x in vals}
            k = "num:" + types.pop() if len(types) == 1 else "num:mixed"
        elif k == "lit" and any(x.endswith('"') for x in vals):
            k = "lit" if all(x.endswith('"') for x in vals) else "litmix"
        elif k == "lit":
            k = "label"
        res[v] = (k, vals)
    return res


def gen_filter(rng, rows, where):
    """One filter that fits the columns of the (unfiltered) solution."""
    from vmodel import group_vars
    cols = column_kinds(rows, sorted(group_vars(where)[1]))
    cands = [v for v in cols if cols[v][0] not in ("litmix", "num:mixed")]
    if not cands:
        return None
    # prefer literal columns
    lits = [v for v in cands if cols[v][0] != "iri"]
    v = pick(rng, lits) if lits and chance(rng, 0.7) else pick(rng, cands)
    k, vals = cols[v]
    op = pick(rng, ["=", "!=", "<", "<=", ">", ">="])
    same = [w for w in cands if w != v and cols[w][0] == k]
    if same and chance(rng, 0.3):
        return ["cmp", op, v, pick(rng, same)]
    if k == "num:int":
        x = int(pick(rng, vals)[1:].split('"')[0])
        x += pick(rng, [0, 0, 1, -1]) if chance(rng, 0.8) else \
            rng.randint(-2000, 2000)
        if chance(rng, 0.6):
            return ["cmp", op, v, ["num", str(x)]]
        return ["cmp", op, v, lit_int(x)]
    if k == "num:decimal":
        if chance(rng, 0.5):
            x = pick(rng, vals) if chance(rng, 0.6) else lit_dec(gen_dec(rng))
            return ["cmp", op, v, x]
        # a literal of another numeric type: never numerically equal
        have = {_num(x) for x in vals}
        for _ in range(20):
            t = str(rng.randint(-20, 30)) if chance(rng, 0.5) else gen_dec(rng)
            if _num2(t) not in have:
                return ["cmp", op, v, ["num", t]]
        return None
    if k == "date":
        return ["cmp", op, v, pick(rng, vals) if chance(rng, 0.6)
                else gen_date(rng)]
    if k == "iri":
        c = rng.randrange(4)
        if c == 0:
            x = pick(rng, vals)
            return ["prefixes", [[v, x[:rng.randint(2, len(x) - 1)]]]]
        if c == 1:
            return ["cmp", pick(rng, ["=", "!="]), v, pick(rng, vals)
                    if chance(rng, 0.8) else "<nosuchthing>"]
        if c == 2:
            return ["cmp", op, v, pick(rng, vals)]
        return ["regex", v, pick(rng, ["1", "e[0-2]>", "^<e", "3>$", "T|2"]),
                pick(rng, ["", "", "i"])]
    if k in ("lit", "label"):
        c = rng.randrange(6)
        if c == 0 and k == "label":
            return ["lang", v, pick(rng, LANGS)]
        if c <= 1:
            x = pick(rng, vals)
            body = x[:x.rfind('"')]
            pre = [[v, body[:rng.randint(2, max(2, len(body)))]]]
            while chance(rng, 0.4) and len(pre) < 3:
                y = pick(rng, vals)
                body = y[:y.rfind('"')]
                pre.append([v, body[:rng.randint(2, max(2, len(body)))]])
            other = [w for w in cands if w != v and
                     cols[w][0] in ("lit", "label")]
            if other and chance(rng, 0.3):
                w = pick(rng, other)
                y = pick(rng, cols[w][1])
                body = y[:y.rfind('"')]
                pre.append([w, body[:rng.randint(2, max(2, len(body)))]])
            return ["prefixes", pre]
        if c == 2:
            w = pick(rng, vals)[1:].split('"')[0]
            i = rng.randrange(len(w))
            sub = w[i:i + rng.randint(1, 3)]
            pat = pick(rng, [sub, sub, '^"' + w[:2] + ".*", sub + '"',
                             sub + "|zz", ".[" + sub[0] + "-z]",
                             '^"' + w + '"$'])
            return ["regex", v, pat, pick(rng, ["", "", "i"])]
        x = pick(rng, vals)
        if chance(rng, 0.3):
            x = '"%s"' % pick(rng, WORDS) if k == "lit" else x
        return ["cmp", op, v, x]
    return None


def _num(t):
    from vmodel import num_value
    return num_value(t)[0]


def _num2(t):
    from decimal import Decimal
    return Decimal(t)


# --------------------------------------------------------------------------
# groups with OPTIONAL, UNION, MINUS, VALUES, BIND, sub-groups, sub-queries
def int_bound(g):
    """Variables bound to integers of the query: the engine keeps them apart
    from the terms of the knowledge base, so they are never joined."""
    res = set()
    for e in g:
        if e[0] == "bind" and e[1][0] == "int":
            res.add(e[2])
        elif e[0] in ("optional", "minus", "group"):
            res |= int_bound(e[1])
        elif e[0] == "union":
            res |= int_bound(e[1]) | int_bound(e[2])
        elif e[0] == "sub":
            res |= int_bound(e[1]["where"])
    return res


def rename(group, old, new):
    return json.loads(json.dumps(group).replace('"%s"' % old, '"%s"' % new))


class AlgebraGen:
    def __init__(self, rng, triples, kb, max_rows=2000):
        self.rng, self.triples, self.kb = rng, triples, kb
        self.by_node = {}
        for t in triples:
            self.by_node.setdefault(t[0], []).append(t)
            if is_entity(t[2]):
                self.by_node.setdefault(t[2], []).append(t)
        self.ents = sorted(self.by_node)
        self.n = 0
        self.max_rows = max_rows

    def fresh(self):
        self.n += 1
        return "?f%d" % self.n

    def attached(self, v, values, shared=(), k=None):
        """One to three triples around a value of ?v; `shared` names may be
        reused for the new nodes."""
        rng = self.rng
        x = pick(rng, values) if values else pick(rng, self.ents)
        if x not in self.by_node:
            x = pick(rng, self.ents)
        names = {x: v}
        pool = list(shared)
        rng.shuffle(pool)
        out = []
        nodes = [x]
        for _ in range(k or rng.choices([1, 2, 3], [5, 3, 1])[0]):
            y = pick(rng, nodes)
            t = pick(rng, self.by_node[y])
            pat = ["t"]
            for pos in (0, 2):
                z = t[pos]
                if z not in names:
                    if chance(rng, 0.2) and len(names) > 0:
                        names[z] = z
                    else:
                        names[z] = pool.pop() if pool and chance(rng, 0.5) \
                            else self.fresh()
                pat.append(names[z])
                if is_entity(z):
                    nodes.append(z)
            pat.insert(2, t[1])
            if pat not in out and tvars(pat):
                out.append(pat)
        if not any(v in tvars(p) for p in out):
            return None
        return repair_connect(rng, out)

    def base(self):
        return gen_bgp(self.rng, self.triples, n=self.rng.randint(1, 3),
                       var_pred=0, max_const=0.2)

    def extend(self, g, depth):
        """Adds one element to the group; returns the new group or None."""
        from vmodel import eval_group, group_vars
        rng = self.rng
        rows = eval_group(self.kb, g)
        if not rows or len(rows) > self.max_rows:
            return None
        poss, cert = group_vars(g)
        ev = [v for v in sorted(cert)
              if any(is_entity(r[v]) for r in rows[:50])]
        if not ev:
            return None
        v = pick(rng, ev)
        vals = sorted({r[v] for r in rows})
        ints = int_bound(g)
        others = [w for w in sorted(cert - ints) if w != v]
        k = rng.choices(["optional", "union", "minus", "values", "bind",
                         "sub", "t"], [5, 4, 4, 2, 2, 3, 2])[0]
        if k == "t":
            a = self.attached(v, vals, others)
            return a and g + a
        if k in ("optional", "minus"):
            a = self.attached(v, vals, others if chance(rng, 0.4) else ())
            if not a:
                return None
            if depth > 0 and chance(rng, 0.25):
                a = self.extend(a, depth - 1) or a
            if chance(rng, 0.25):
                f = gen_filter(rng, eval_group(self.kb, a), a)
                if f and f[0] != "lang":
                    a = a + [["filter", f]]
            return g + [[k, a]]
        if k == "union":
            f1 = [self.fresh() for _ in range(2)]
            a = self.attached(v, vals, f1)
            b = self.attached(v, vals, f1)
            if not a or not b:
                return None
            if depth > 0 and chance(rng, 0.2):
                a = self.extend(a, depth - 1) or a
            if depth > 0 and chance(rng, 0.2):
                b = self.extend(b, depth - 1) or b
            return g + [["union", a, b]]
        if k == "values":
            vs = [v]
            if chance(rng, 0.4) and len(ev) > 1:
                vs.append(pick(rng, [w for w in ev if w != v]))
            tab = []
            for _ in range(rng.randint(1, 5)):
                if chance(rng, 0.7):
                    r = pick(rng, rows)
                    row = [r[w] for w in vs]
                else:
                    row = [pick(rng, self.ents) for _ in vs]
                if all(is_entity(x) for x in row):
                    tab.append(row)
            if not tab:
                return None
            e = [["values", vs, tab]]
            return g + e if chance(rng, 0.5) else e + g
        if k == "bind":
            c = rng.randrange(3)
            t = self.fresh()
            if c == 0:
                ex = ["const", pick(rng, self.ents)]
            elif c == 1:
                ex = ["int", rng.randint(0, 200)]
            else:
                ex = ["var", pick(rng, sorted(cert - ints))]
            return g + [["bind", ex, t]]
        if k == "sub":
            a = self.attached(v, vals, others if chance(rng, 0.3) else ())
            if not a:
                return None
            if depth > 0 and chance(rng, 0.3):
                a = self.extend(a, depth - 1) or a
            p2, c2 = group_vars(a)
            if v not in c2:
                return None
            sel = [v] + [w for w in sorted(p2) if w != v and
                         (w in cert or chance(rng, 0.5))]
            rng.shuffle(sel)
            # variables that are not selected may have the name of a variable
            # outside, with which they have nothing to do
            taken = set(p2)
            for w in sorted(p2 - set(sel)):
                free = sorted(poss - taken)
                if free and chance(rng, 0.4):
                    name = pick(rng, free)
                    taken.add(name)
                    a = rename(a, w, name)
            q = {"select": sel, "where": a}
            if chance(rng, 0.4):
                q["distinct"] = True
            return g + [["sub", q]]
        return None

    def query(self, depth=1):
        from vsem import valid_group
        rng = self.rng
        g = self.base()
        kinds = rng.choices([1, 2, 3], [5, 4, 2])[0]
        n = 0
        for _ in range(12):
            if n >= kinds:
                break
            h = self.extend(g, depth)
            if h and valid_group(h) and len(all_vars(h)) <= 9:
                g, n = h, n + 1
        if n == 0:
            return None
        if chance(rng, 0.15):
            rng.shuffle(g)
        q = {"select": pick_select(rng, all_vars(g)), "where": g}
        if chance(rng, 0.2):
            q["distinct"] = True
        return q


def gen_limits(rng):
    """Small values of the limits from which on relations are stored in
    blocks or buffered on disk, joins gallop and unions copy in chunks, so
    that small data reaches that code; None for the values the program has by
    itself."""
    if chance(rng, 0.4):
        return None
    limits = {}
    if chance(rng, 0.7):
        limits["USE_BLOCKS_INDEX_SIZE_TRESHOLD"] = rng.choice([0, 1, 2, 5])
        limits["DISTINCT_LHS_PER_BLOCK"] = rng.choice([1, 1, 2, 3, 5])
    if chance(rng, 0.7):
        limits["GALLOP_THRESHOLD"] = rng.choice([0, 0, 1, 3])
    if chance(rng, 0.5):
        limits["THRESHOLD_RELATION_CREATION"] = rng.choice([0, 1, 3, 10])
    if chance(rng, 0.5):
        limits["UNION_CHUNK_SIZE"] = rng.choice([20, 25, 40])
    return limits
