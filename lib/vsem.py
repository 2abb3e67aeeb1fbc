"""Shared machinery of the properties that compare answers with the model."""
import bisect
import functools
import json
import re
from collections import Counter
from decimal import Decimal

import vgen
import vmodel
from vmodel import (KB, compare_terms, eval_query, group_vars, is_var,
                    project, render_query, sort_rows, to_turtle)
from vrun import Outcome, Spec, ddmin_lists, digest
from vserver import HttpError, IndexFailed, ServerDied

MAX_ROWS = 20000


# --------------------------------------------------------------------------
# validity of a query: inside the fragment the engine supports
def valid_group(g, outer_first=True):
    """Checks connectivity and the binding rules the generators guarantee."""
    if not g:
        return False
    bound, poss, used = set(), set(), set()
    first = True
    i = 0
    elems = [e for e in g if e[0] != "filter"]
    if not elems:
        return False
    run = []

    def flush():
        nonlocal first, run
        if not run:
            return True
        if not vgen.connected(run) or not vgen.full_scan_ok(run):
            return False
        vs = set()
        for t in run:
            vs |= vgen.tvars(t)
        if not first and not vs & bound:
            return False
        if vs & (poss - bound):
            return False
        bound.update(vs)
        poss.update(vs)
        first = False
        run = []
        return True

    for e in elems:
        k = e[0]
        if k == "t":
            if not vgen.tvars(e):
                return False
            if isinstance(e[2], list) and vmodel.path_can_be_empty(e[2]):
                return False
            run.append(e)
            continue
        if not flush():
            return False
        if k in ("optional", "minus", "group"):
            if not valid_group(e[1]):
                return False
            p, c = group_vars(e[1])
        elif k == "union":
            if not valid_group(e[1]) or not valid_group(e[2]):
                return False
            p, c = group_vars([e])
        elif k == "sub":
            if not valid_query(e[1]):
                return False
            p, c = vmodel.query_vars(e[1])
        elif k == "values":
            p = c = set(e[1])
        elif k == "bind":
            # (the engine also rejects targets that only a MINUS mentions)
            if e[2] in poss | used or first or (e[1][0] == "var" and
                                         e[1][1] not in bound):
                return False
            poss.add(e[2])
            bound.add(e[2])
            continue
        else:
            return False
        if k in ("optional", "minus") and first:
            return False
        if not first and not (c & bound):
            return False
        if (p & poss) - (c & bound):
            return False
        poss |= p if k != "minus" else set()
        used |= p
        if k not in ("optional", "minus"):
            bound |= c
        first = False
    if not flush():
        return False
    for e in g:
        if e[0] == "filter":
            fv = set(x for x in _filter_vars(e[1]))
            if not fv <= bound:
                return False
    return True


def _filter_vars(f):
    if f[0] == "cmp":
        yield f[2]
        if is_var(f[3]):
            yield f[3]
    elif f[0] == "prefixes":
        for v, _ in f[1]:
            yield v
    else:
        yield f[1]


def valid_query(q):
    if not q["select"] or not valid_group(q["where"]):
        return False
    poss, cert = group_vars(q["where"])
    names = set()
    gb = set(q.get("group_by") or [])
    has_agg = any(not isinstance(i, str) for i in q["select"])
    for it in q["select"]:
        if isinstance(it, str):
            if it not in poss or ((gb or has_agg) and it not in gb):
                return False
            names.add(it)
        else:
            if it[3] not in cert and (it[1] != "count" or
                                      it[3] not in poss):
                return False
            names.add(it[4])
    if not gb <= poss:
        return False
    if has_agg and not gb and q.get("_grouped"):
        return False
    for f in q.get("having") or []:
        if f[2] not in names:
            return False
    for d, v in q.get("order_by") or []:
        if v not in names and (has_agg or gb or q.get("distinct")):
            return False
        if not has_agg and v not in cert:
            return False
    return True


# --------------------------------------------------------------------------
def cell_ok(exp, act):
    if isinstance(exp, str):
        return exp == act
    if exp[0] == "num":
        try:
            a = Decimal(act)
        except Exception:
            return False
        e = exp[1]
        # the engine adds 32 bit floats and prints six significant digits
        tol = max(Decimal("1e-9"), abs(e) * Decimal("1e-5") +
                  exp[2] * Decimal("2e-6"))
        return abs(a - e) <= tol
    if exp[0] == "any":
        return act in exp[1]
    if exp[0] == "bag":
        parts = act.split(exp[1]) if act or exp[2] else []
        return sorted(parts) == list(exp[2])
    return False


def unmatched(exp, act):
    """A row of `act` left over by a maximum matching of the actual rows to
    different expected rows, None if every row has its partner."""
    edges = [[j for j, x in enumerate(exp)
              if all(cell_ok(a, b) for a, b in zip(x, r))] for r in act]
    owner = {}
    for start in range(len(act)):
        via, todo, end = {}, [start], None
        while todo and end is None:
            i = todo.pop()
            for j in edges[i]:
                if j in via:
                    continue
                via[j] = i
                if j not in owner:
                    end = j
                    break
                todo.append(owner[j])
        if end is None:
            return act[start]
        while end is not None:
            i = via[end]
            prev = next((j for j, o in owner.items() if o == i), None) \
                if i != start else None
            owner[end] = i
            end = prev
    return None


def compare(q, rows, act):
    """None if the answer `act` (list of lists) is right, else a message."""
    exp = project(rows, q["select"])
    act = [tuple("" if c is None else c for c in r) for r in act]
    names = [i if isinstance(i, str) else i[4] for i in q["select"]]
    fuzzy = any(not isinstance(c, str) for r in exp for c in r)
    if q.get("distinct"):
        exp = list(dict.fromkeys(exp))
    limit, offset = q.get("limit"), q.get("offset") or 0
    n = len(exp)
    want = max(0, n - offset)
    if limit is not None:
        want = min(want, limit)
    if len(act) != want:
        return "expected %d rows, got %d" % (want, len(act))
    if fuzzy:
        fixed = [i for i in range(len(names))
                 if all(isinstance(r[i], str) for r in exp)]
        ek = {}
        for r in exp:
            ek.setdefault(tuple(r[i] for i in fixed), []).append(r)
        ak = {}
        for r in act:
            ak.setdefault(tuple(r[i] for i in fixed), []).append(r)
        for key, got in ak.items():
            r = unmatched(ek.get(key, ()), got)
            if r is not None:
                return "unexpected row %r (expected for this group: %r)" % (
                    r, [[str(y) for y in x] for x in ek.get(key, ())][:3])
    else:
        diff = Counter(act) - Counter(exp)
        if diff:
            return "unexpected rows %r" % sorted(diff.items())[:4]
        if want == n:
            miss = Counter(exp) - Counter(act)
            if miss:
                return "missing rows %r" % sorted(miss.items())[:4]
    ob = q.get("order_by")
    if ob and any(v not in names for d, v in ob):
        return hidden_order(q, rows, act)
    if ob:
        cols = [(d, names.index(v)) for d, v in ob]

        def cmp(a, b):
            for d, i in cols:
                c = cmp_cells(a[i], b[i])
                if c:
                    return -c if d == "desc" else c
            return 0
        for x, y in zip(act, act[1:]):
            if cmp(x, y) > 0:
                return "rows out of order: %r before %r" % (x, y)
        if (limit is not None or offset) and not fuzzy:
            ref = sorted(exp, key=functools.cmp_to_key(cmp))
            ref = ref[offset:offset + want]
            for x, y in zip(ref, act):
                if cmp(x, y) != 0:
                    return "wrong slice: expected a row like %r, got %r" % (
                        x, y)
    return None


def hidden_order(q, rows, act):
    """Ordered by variables that are not all selected: some choice of
    solutions with the answer's rows has to be in order."""
    ob = q["order_by"]

    def cmp(a, b):
        for (d, v), x, y in zip(ob, a, b):
            c = cmp_cells(x, y)
            if c:
                return -c if d == "desc" else c
        return 0
    key = functools.cmp_to_key(cmp)
    keys = {}
    for r, p in zip(rows, project(rows, q["select"])):
        keys.setdefault(p, set()).add(tuple(r[v] for d, v in ob))
    keys = {p: sorted(map(key, k)) for p, k in keys.items()}
    last = None
    for a in act:
        c = keys[a]
        i = 0 if last is None else bisect.bisect_left(c, last)
        if i == len(c):
            return "rows out of order at %r" % (a,)
        last = c[i]
    return None


NUMBER = re.compile(r"^-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$")


def cmp_cells(a, b):
    if NUMBER.match(a) and NUMBER.match(b):
        a, b = Decimal(a), Decimal(b)
        return (a > b) - (a < b)
    return compare_terms(a, b)


# --------------------------------------------------------------------------
class SemSpec(Spec):
    """Cases {"triples": [...], "queries": [...]}."""
    index_args = ()
    server_args = ()
    # The hash maps of the engine are seeded per process, and plans depend on
    # their order, so the queries are asked after several starts.
    starts = 2

    def ok_error(self, q, msg):
        """Errors that mean "not supported" rather than a wrong answer."""
        return False

    def turtle(self, case):
        return to_turtle(case["triples"])

    def nontrivial_key(self, q, rows, case):
        """A string if the evaluation is non-trivial, else None."""
        if not rows:
            return None
        return digest([render_query(q), sorted(map(str, project(
            rows[:50], q["select"]))), len(rows)])

    def run(self, env, case):
        out = Outcome()
        try:
            ix = env.tools.build_index(self.turtle(case),
                                       args=list(self.index_args) +
                                       case.get("index_args", []),
                                       settings=case.get("settings"),
                                       limits=case.get("limits"))
        except IndexFailed as e:
            out.fail("index build failed", detail=str(e)[:1500])
            return out
        sv = None
        ref = {}
        try:
            for k in range(case.get("starts", self.starts)):
                sv = ix.serve(args=list(self.server_args) +
                              case.get("server_args", []),
                              limits=case.get("limits"))
                self.run_queries(sv, case, out, ref, k == 0)
                sv.stop()
                if out.failure:
                    break
        except ServerDied as e:
            out.fail("server died", detail=str(e)[:1500])
        finally:
            if sv:
                sv.stop()
            ix.close()
        return out

    def focus(self, case, fail):
        qi = fail.get("query")
        if qi is None:
            return None
        return dict(case, queries=[case["queries"][qi]], starts=60)

    def kb(self, case):
        return KB(case["triples"])

    def reference(self, kb, q, case):
        return eval_query(kb, q)

    def run_queries(self, sv, case, out, ref, first):
        if first:
            kb = self.kb(case)
            for qi, q in enumerate(case["queries"]):
                try:
                    rows = self.reference(kb, q, case)
                except vmodel.Unsupported:
                    out.count("outside model")
                    continue
                if len(rows) > MAX_ROWS:
                    out.count("too many rows")
                    continue
                ref[qi] = rows
        for qi, q in enumerate(case["queries"]):
            if qi not in ref:
                continue
            rows = ref[qi]
            text = render_query(q)
            try:
                r = sv.query(text, send=10 * MAX_ROWS)
            except (HttpError, ServerDied) as e:
                out.fail("no answer", query=qi, sparql=text,
                         detail=str(e)[:1500])
                if isinstance(e, ServerDied) or "timed out" in str(e):
                    return
                continue
            out.evaluations += 1
            if r.get("status") != "OK":
                msg = str(r.get("exception"))
                if self.ok_error(q, msg):
                    out.count("refused")
                    continue
                out.fail("error status", query=qi, sparql=text,
                         detail=msg[:1500])
                continue
            msg = compare(q, rows, r["res"])
            if msg is None:
                msg = self.extra(q, rows, r)
            if msg:
                out.fail("wrong answer", query=qi, sparql=text, detail=msg,
                         expected=len(rows), actual=[list(x) for x in
                                                     r["res"][:20]])
            if not first:
                continue
            key = self.nontrivial_key(q, rows, case)
            if key:
                out.nontrivial.append(key)
            self.tally(q, rows, out)
            if not out.samples and rows:
                out.samples.append({"sparql": text, "triples":
                                    len(case["triples"]), "rows": len(rows)})

    def extra(self, q, rows, r):
        if r.get("resultsize") is None:
            return "no resultsize"
        return None

    def tally(self, q, rows, out):
        out.count("empty" if not rows else "non-empty")
        n = sum(1 for e in q["where"] if e[0] == "t")
        out.count("triples=%d" % n)

    def shrink(self, case, fail):
        qi = fail.get("query")
        if qi is not None and len(case["queries"]) > 1:
            yield dict(case, queries=[case["queries"][qi]])
            yield dict(case, queries=case["queries"][:qi + 1])
        if qi is None and case["queries"]:
            yield dict(case, queries=[])
        for t in ddmin_lists(case["triples"]):
            if t:
                yield dict(case, triples=t)
        if len(case["queries"]) == 1:
            for q in vgen.shrink_query(case["queries"][0]):
                if valid_query(q):
                    yield dict(case, queries=[q])
        if case.get("limits"):
            yield dict(case, limits=None)
            for k in case["limits"]:
                yield dict(case, limits={x: v for x, v in
                                         case["limits"].items() if x != k})
        for key in ("settings", "index_args", "server_args"):
            if case.get(key):
                yield dict(case, **{key: None if key == "settings" else []})
