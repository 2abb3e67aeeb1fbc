"""Random RDF graphs and their many spellings in Turtle and N-Triples.

A graph is a list of [subject, predicate, object]; a term is one of
  ["i", iri]            an IRI (without the angle brackets)
  ["b", label]          a blank node with a label
  ["n", key]            a blank node without a label (key is only for us)
  ["l", text]           a plain literal
  ["g", text, tag]      a literal with a language tag
  ["t", text, iri]      a literal with a datatype
  ["num", text]         a number without quotes (kind follows from the text)
  ["bool", "true"]      a boolean without quotes
"""
import re
from decimal import Decimal

XSD = "http://www.w3.org/2001/XMLSchema#"
TYPE = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"

TEXT = list("abcXYZ019 .,;:!?()[]{}<>@^'\"\\/#_-+=*&%$|~`") + [
    "\n", "\t", "\r", "\x08", "\x0c", "ä", "ß", "Ж", "中",
    "’", "\U0001d11e", "\U0001f600", "ا", "\x01", "\x7f",
    "\u07ff", "\u0800", "\ufffd", "\U000f0001", "\U0010abcd", "\U0010fffd"]
IRI = list("abcXYZ019./#?=&-_~:@!$'()*+,;%") + [
    "ä", "中", "\U0001f600", "\U0010fffd"]
LOCAL = list("abcXYZ019_-")
LOCAL_ESC = "_~.-!$&'()*+,;=/?#@%"


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def gen_text(rng, maxlen=12):
    n = rng.choice([0, 1, 1, 2, 3, 5, maxlen])
    if rng.random() < 0.3:
        return "".join(pick(rng, "abcde ") for _ in range(n))
    return "".join(pick(rng, TEXT) for _ in range(n))


def gen_iri(rng, spaces):
    k = rng.random()
    if k < 0.75:
        return pick(rng, spaces) + gen_local(rng)
    return "http://x/" + "".join(pick(rng, IRI)
                                 for _ in range(rng.randint(1, 8)))


def gen_local(rng):
    n = rng.choice([0, 1, 2, 4])
    s = "".join(pick(rng, LOCAL) for _ in range(n))
    k = rng.random()
    if k < 0.15:
        s += "." + pick(rng, LOCAL)
    elif k < 0.22:
        s += ":" + pick(rng, LOCAL)
    elif k < 0.30:
        s += pick(rng, LOCAL_ESC.replace("%", ""))
    elif k < 0.34:
        s += "%4" + pick(rng, "1aF")
    elif k < 0.40:
        s += pick(rng, ["ä", "中"])
    return s


def gen_num(rng):
    sign = pick(rng, ["", "", "-", "+"])
    k = rng.random()
    a, b = str(rng.randrange(100000)), str(rng.randrange(1000))
    if k < 0.4:
        return sign + a
    if k < 0.7:
        return sign + pick(rng, [a, a, ""]) + "." + b
    e = pick(rng, "eE") + pick(rng, ["", "+", "-"]) + str(rng.randrange(6))
    return sign + pick(rng, [a + "." + b, a + ".", "." + b, a]) + e


class Graph:
    def __init__(self, rng, n, langs=True):
        self.rng = rng
        self.spaces = ["http://x/", "http://x/y#", "urn:z:", "http://e.org/a/"]
        self.iris = [gen_iri(rng, self.spaces) for _ in range(8)]
        self.preds = [gen_iri(rng, self.spaces) for _ in range(4)] + [TYPE]
        self.labels = ["b%d" % i for i in range(3)] + ["x.y", "a-b", "0"]
        self.anon = 0
        self.langs = langs
        self.trees = []
        for _ in range(n):
            self.trees.append(self.tree(0))

    def anon_node(self):
        self.anon += 1
        return ["n", self.anon]

    def tree(self, depth, subject=None):
        """[subject, [[predicate, [object...]]...]], where an object can be
        another tree with a blank node as subject."""
        rng = self.rng
        if subject is None:
            k = rng.random()
            if k < 0.75:
                subject = ["i", pick(rng, self.iris)]
            elif k < 0.88:
                subject = ["b", pick(rng, self.labels)]
            else:
                subject = self.anon_node()
        pos = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = pick(rng, self.preds)
            pos.append([p, [self.obj(depth)
                            for _ in range(rng.choice([1, 1, 1, 2, 3]))]])
        return [subject, pos]

    def obj(self, depth):
        rng = self.rng
        k = rng.random()
        if k < 0.2:
            return ["i", pick(rng, self.iris) if rng.random() < 0.7 else
                    gen_iri(rng, self.spaces)]
        if k < 0.26:
            return ["b", pick(rng, self.labels)]
        if k < 0.32:
            return self.anon_node()
        if k < 0.40 and depth < 3:
            return ["tree", self.tree(depth + 1, self.anon_node())]
        if k < 0.60:
            return ["l", gen_text(rng)]
        if k < 0.68 and self.langs:
            return ["g", gen_text(rng), pick(rng, ["en", "de", "en-us", "zh",
                                                   "de-ch-1996"])]
        if k < 0.78:
            return ["t", gen_text(rng), pick(rng, [
                "http://x/type", "urn:z:dt", XSD + "string",
                XSD + "anyURI", "http://x/y#"])]
        if k < 0.92:
            return ["num", gen_num(rng)]
        return ["bool", pick(rng, ["true", "false"])]


def flatten(trees):
    """The triples of the trees."""
    res = []

    def walk(t):
        s, pos = t
        for p, objs in pos:
            for o in objs:
                if o[0] == "tree":
                    res.append([s, ["i", p], o[1][0]])
                    walk(o[1])
                else:
                    res.append([s, ["i", p], o])
    for t in trees:
        walk(t)
    return res


# --------------------------------------------------------------------------
class Writer:
    """Writes trees as Turtle.  `relaxed`: only what the fast parser for
    ASCII prefixes is documented to accept."""

    NAMES = ["a", "ab", "e5", "E-1", "true", "truex", "falsey", "BASEx",
             "PREFIXy", "p.q", "x-1", "p_", "x", "", "aa"]

    def __init__(self, rng, spaces, relaxed=False):
        self.rng, self.spaces, self.relaxed = rng, spaces, relaxed
        self.prefixes = {}
        self.out = []
        self.plain = rng.random() < 0.2

    def chance(self, p):
        return self.rng.random() < p

    # white space, where it is needed / where it may be left out
    def ws(self):
        if self.plain:
            return " "
        k = self.rng.random()
        if k < 0.6:
            return " "
        if k < 0.75:
            return pick(self.rng, ["\n", "\r\n", " \n "] +
                        ([] if self.relaxed else ["\t"]))
        if k < 0.85:
            return "  "
        return " " + "".join(
            "#" + pick(self.rng, ["", " comment", " \"'", ". <a> <b> ;",
                                  " # again", " ä"]) + "\n" +
            pick(self.rng, ["", " ", "\n"])
            for _ in range(self.rng.randint(1, 3)))

    def opt(self):
        return self.ws() if self.plain or self.chance(0.5) else ""

    def directive(self):
        k = self.rng.random()
        if k < 0.12:
            b = "<http://base.org/%d>" % self.rng.randrange(9)
            if self.chance(0.5):
                return "@base" + self.ws() + b + self.opt() + "." + self.ws()
            return "BASE" + self.ws() + b + self.ws()
        names = self.NAMES + ([] if self.relaxed else ["äx", "x中"])
        name = pick(self.rng, names)
        space = pick(self.rng, self.spaces)
        self.prefixes[name] = space
        b = self.iriref(space)
        if self.chance(0.6):
            return "@prefix" + self.ws() + name + ":" + self.opt() + b + \
                self.opt() + "." + self.ws()
        return "PREFIX" + self.ws() + name + ":" + self.opt() + b + self.ws()

    def uchar(self, c):
        o = ord(c)
        f = pick(self.rng, ["%04X", "%04x"]) if o < 0x10000 and \
            self.chance(0.7) else "%08X"
        return ("\\u" if len(f % 0) == 4 else "\\U") + f % o

    def iriref(self, iri):
        return "<" + "".join(
            self.uchar(c) if self.chance(0.05 if ord(c) < 128 else 0.3)
            else c for c in iri) + ">"

    def local(self, s):
        """A spelling of s as local name, None if there is none."""
        out = []
        i = 0
        while i < len(s):
            c = s[i]
            first, last = i == 0, i == len(s) - 1
            if c == "%" and re.match("%[0-9A-Fa-f]{2}", s[i:]):
                out.append(s[i:i + 3])
                i += 3
                continue
            if c.isalnum() or c == "_" or c == ":" or \
                    (c == "-" and not first):
                if c == "_" and self.chance(0.1) and not self.relaxed:
                    c = "\\_"
                out.append(c)
            elif c == "." and not first and not last and self.chance(0.7):
                out.append(c)
            elif c in LOCAL_ESC:
                out.append("\\" + c)
            else:
                return None
            i += 1
        r = "".join(out)
        if self.relaxed and ("\\" in r or not r.isascii()):
            return None
        return r

    def iri(self, iri):
        if self.chance(0.7):
            cand = [(n, ns) for n, ns in self.prefixes.items()
                    if iri.startswith(ns)]
            if cand:
                n, ns = pick(self.rng, cand)
                loc = self.local(iri[len(ns):])
                if loc is not None and not (self.relaxed and not loc):
                    # what follows must not be taken for a part of the name
                    return n + ":" + loc + (" " if self.relaxed else ""), True
        return self.iriref(iri), False

    def string(self, s):
        rng = self.rng
        q = pick(rng, ['"', '"', "'", '"""', "'''"])
        out = []
        for i, c in enumerate(s):
            esc = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\x08": "\\b",
                   "\x0c": "\\f", '"': '\\"', "'": "\\'", "\\": "\\\\"}
            must = c == "\\" or (len(q) == 1 and (c in "\n\r" or c == q))
            if len(q) == 3 and c == q[0]:
                # an unescaped quote must not complete or precede the end
                must = i == len(s) - 1 or s[i + 1] == c
            if must:
                out.append(esc[c])
            elif c in esc and self.chance(0.4):
                out.append(esc[c])
            elif self.chance(0.06 if ord(c) < 128 else 0.25):
                out.append(self.uchar(c))
            else:
                out.append(c)
        return q + "".join(out) + q

    def term(self, t):
        """The text of a term and whether it must be followed by space if a
        name or number character follows."""
        k = t[0]
        if k == "i":
            return self.iri(t[1])
        if k == "b":
            return "_:" + t[1], True
        if k == "n":
            return pick(self.rng, ["[]", "[ ]", "[\n]"]), False
        if k == "l":
            return self.string(t[1]), False
        if k == "g":
            return self.string(t[1]) + "@" + t[2], True
        if k == "t":
            x, sp = self.iri(t[2])
            return self.string(t[1]) + "^^" + x, sp
        return t[1], True

    def verb(self, p):
        if p == TYPE and self.chance(0.7):
            return "a", True
        return self.iri(p)

    def add(self, x, sp):
        """Appends x; sp: white space needed after what came before."""
        self.out.append((self.ws() if sp else self.opt()) + x)

    def pol(self, pos, sp):
        """predicateObjectList; returns whether space is needed after it."""
        first = True
        for p, objs in pos:
            if not first:
                self.add(";", sp and self.chance(0.5))
                while self.chance(0.1) and not self.relaxed:
                    self.add(";", False)
                sp = False
            first = False
            v, vs = self.verb(p)
            self.add(v, sp)
            sp = vs
            for j, o in enumerate(objs):
                if j:
                    self.add(",", sp and self.chance(0.5))
                    sp = False
                if o[0] == "tree":
                    sp = self.blank(o[1], sp and self.chance(0.5))
                else:
                    x, xs = self.term(o)
                    self.add(x, sp)
                    sp = xs
        if self.chance(0.15) and not self.relaxed:
            self.add(";", sp and self.chance(0.5))
            sp = False
        return sp

    def blank(self, tree, sp):
        self.add("[", sp)
        s2 = self.pol(tree[1], False)
        self.add("]", s2 and self.chance(0.5))
        return False

    def end(self, sp):
        # a dot directly after a name or number may be a part of it
        self.add(".", sp)
        self.out.append(pick(self.rng, ["\n", " ", "\n\n"]) if self.plain or
                        self.chance(0.8) else self.ws())

    def document(self, trees):
        for _ in range(self.rng.randint(0, 5)):
            self.out.append(self.directive())
        for s, pos in trees:
            if self.chance(0.15):
                self.out.append(self.directive())
            if s[0] == "n":
                if self.chance(0.6) and len(pos) > 1:
                    cut = self.rng.randint(1, len(pos) - 1)
                    sp = self.blank([s, pos[:cut]], False)
                    sp = self.pol(pos[cut:], sp)
                elif self.chance(0.5):
                    sp = self.blank([s, pos], False)
                else:
                    self.add("[]", False)
                    sp = self.pol(pos, False)
            else:
                x, sp = self.term(s)
                self.add(x, False)
                sp = self.pol(pos, sp)
            self.end(sp)
        if self.chance(0.1):
            self.out.append("# the end")
        return "".join(self.out)


def ntriples(rng, triples):
    """The triples as N-Triples, one per line."""
    w = Writer(rng, [])

    def text(s):
        out = []
        for c in s:
            if c in '\n\r"\\':
                out.append({"\n": "\\n", "\r": "\\r", '"': '\\"',
                            "\\": "\\\\"}[c])
            elif c in "\t\x08\x0c" and rng.random() < 0.5:
                out.append({"\t": "\\t", "\x08": "\\b", "\x0c": "\\f"}[c])
            elif rng.random() < 0.1:
                out.append(w.uchar(c))
            else:
                out.append(c)
        return '"' + "".join(out) + '"'

    def term(t):
        if t[0] == "i":
            return w.iriref(t[1])
        if t[0] == "b":
            return "_:" + t[1]
        if t[0] == "n":
            return "_:anon%d" % t[1]
        if t[0] == "l":
            return text(t[1])
        if t[0] == "g":
            return text(t[1]) + "@" + t[2]
        if t[0] == "t":
            return text(t[1]) + "^^" + w.iriref(t[2])
        return '"%s"^^<%s%s>' % (t[1], XSD, num_kind(t))

    return "".join("%s%s%s%s%s%s.\n" % (
        term(s), pick(rng, [" ", "\t"]), term(p), pick(rng, [" ", "  "]),
        term(o), pick(rng, [" ", "\t"])) for s, p, o in triples)


# --------------------------------------------------------------------------
def num_kind(t):
    if t[0] == "bool":
        return "boolean"
    if re.search("[eE]", t[1]):
        return "double"
    return "decimal" if "." in t[1] else "integer"


def canonical(t):
    """A comparable form of a term; blank nodes become None."""
    if t[0] == "i":
        return "<%s>" % t[1]
    if t[0] in "bn":
        return None
    if t[0] == "l":
        return '"%s"' % t[1]
    if t[0] == "g":
        return '"%s"@%s' % (t[1], t[2])
    if t[0] == "t":
        return '"%s"^^<%s>' % (t[1], t[2])
    if t[0] == "bool":
        return '"%s"^^<%sboolean>' % (t[1], XSD)
    return ("num", num_kind(t), str(Decimal(t[1]).normalize()))


NUM_OUT = re.compile(r'^"([^"]*)"\^\^<%s(int|integer|decimal|double|float)>$'
                     % re.escape(XSD))


def parse_output(s):
    """The same form for a term of an answer; None for blank nodes."""
    m = NUM_OUT.match(s)
    if m:
        try:
            v = str(Decimal(m.group(1)).normalize())
        except ArithmeticError:
            return s
        k = {"int": "integer", "float": "double"}.get(m.group(2), m.group(2))
        return ("num", k, "0" if v in ("0", "-0") else v)
    if s.startswith('"') or s.startswith("<"):
        return s
    return None


def colour(triples):
    """The multiset of triples with blank nodes replaced by colours; the
    arguments are (subject key, predicate, object key, forms)."""
    nodes = {}
    for s, p, o in triples:
        for x in (s, o):
            if x[0] == "blank":
                nodes[x] = "b"
    for _ in range(8):
        new = {}
        sig = {n: [] for n in nodes}
        for s, p, o in triples:
            if s in sig:
                sig[s].append(">%s %s" % (p, nodes.get(o, o)))
            if o in sig:
                sig[o].append("<%s %s" % (p, nodes.get(s, s)))
        import hashlib
        for n in nodes:
            new[n] = "blank " + hashlib.md5(
                (nodes[n] + repr(sorted(sig[n]))).encode(
                    "utf-8", "surrogatepass")).hexdigest()[:8]
        nodes = new
    return sorted(repr((nodes.get(s, s), p, nodes.get(o, o)))
                  for s, p, o in triples)
