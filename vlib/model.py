"""Reference model: terms, harvests, queries, and what the answers must be.

Everything here is written from the documented formats (harvest / query /
answer set), not from the code under test.
"""
import re
import sys
from xml.sax.saxutils import escape, quoteattr

sys.setrecursionlimit(20000)

WS = " \t\n\v\f\r"
MAX_ARITY = 255


def nows(s):
    return "".join(c for c in s if c not in WS)


class T:
    """A content MathML node. tag without prefix."""
    __slots__ = ("tag", "text", "kids", "attrs", "id", "xpath")

    def __init__(self, tag, text="", kids=(), attrs=None):
        self.tag = tag
        self.text = text
        self.kids = list(kids)
        self.attrs = attrs or {}
        self.id = None
        self.xpath = None

    def meaning(self):
        if self.tag == "mtext":
            return "mtext#"
        return self.tag + "#" + nows(self.text)

    def clone(self):
        return T(self.tag, self.text, [k.clone() for k in self.kids],
                 dict(self.attrs))

    def size(self):
        return 1 + sum(k.size() for k in self.kids)

    def depth(self):
        return max([0] + [k.depth() + 1 for k in self.kids])

    def key(self):
        return (self.meaning(), tuple(k.key() for k in self.kids))

    def subterms(self):
        yield self
        for k in self.kids:
            for s in k.subterms():
                yield s


class QVar(T):
    """name "" is anonymous; how: 'attr' or 'text'; inner: XML of contents
    without meaning."""
    __slots__ = ("name", "how", "inner")

    def __init__(self, name="", how="attr", inner=""):
        T.__init__(self, "mws:qvar")
        self.name = name
        self.how = how
        self.inner = inner

    def clone(self):
        return QVar(self.name, self.how, self.inner)


class Range(T):
    """bounds are attribute strings or None."""
    __slots__ = ("low", "high", "inner")

    def __init__(self, low=None, high=None, inner=""):
        T.__init__(self, "mws:range")
        self.low = low
        self.high = high
        self.inner = inner

    def clone(self):
        return Range(self.low, self.high, self.inner)


# --- writing XML -----------------------------------------------------------
class Style:
    """Random but meaning-preserving ways of writing the same term."""

    def __init__(self, rng=None, prefix="mix", noise=0.0):
        self.rng = rng
        self.prefix = prefix
        self.noise = noise

    def p(self, x):
        return self.rng is not None and self.noise > 0 and \
            self.rng.random() < x * self.noise

    def tag(self, tag):
        if tag.startswith("mws:"):
            return tag
        if self.prefix == "m":
            return "m:" + tag
        if self.prefix == "none":
            return tag
        return ("m:" + tag) if (self.rng is None or self.rng.random() < .7) \
            else tag

    def text(self, s):
        out = []
        for c in s:
            if self.p(.15):
                out.append(self.rng.choice([" ", "\n", "\t", "  ", "\r\n"]))
            if self.p(.1):
                out.append("&#%d;" % ord(c) if self.rng.random() < .5
                           else "&#x%x;" % ord(c))
            else:
                if self.p(.05) and c != "]":
                    out.append("<![CDATA[" + c + "]]>")
                else:
                    out.append(escape(c, {"\r": "&#13;"}))
            if self.p(.03):
                out.append("<!-- c&d -->")
        r = "".join(out)
        if self.p(.3):
            r = self.rng.choice([" ", "\n  ", "\t"]) + r + \
                self.rng.choice([" ", "\n", ""])
        return r

    def gap(self):
        if self.p(.35):
            return self.rng.choice(["\n", " ", "\n    ", "<!-- x -->", "\t",
                                    "<?pi x?>"])
        return ""

    def attrs(self, t):
        a = dict(t.attrs)
        if self.p(.25):
            a.setdefault(self.rng.choice(["id", "xref", "class", "cd"]),
                         "n%d" % self.rng.randrange(1000))
        if self.p(.03):
            a.setdefault("name", "no<&\"'t used")
        return "".join(" %s=%s" % (k, quoteattr(v, {"\n": "&#10;",
                                                    "\t": "&#9;",
                                                    "\r": "&#13;"}))
                       for k, v in a.items())


PLAIN = Style(None, "m", 0)


def qa(v):
    return quoteattr(v, {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})


def to_xml(t, st=PLAIN):
    if isinstance(t, QVar):
        if t.inner:
            return "<mws:qvar%s>%s%s</mws:qvar>" % (
                " name=%s" % qa(t.name) if t.name and t.how == "attr" else "",
                escape(t.name) if t.how != "attr" else "", t.inner)
        if not t.name:
            return st.rng.choice(["<mws:qvar/>", "<mws:qvar></mws:qvar>"]) \
                if st.rng else "<mws:qvar/>"
        if t.how == "attr":
            if st.rng and st.rng.random() < .1:
                # the attribute is the name, whatever the element holds
                return "<mws:qvar name=%s>%s</mws:qvar>" % (qa(t.name), escape(
                    st.rng.choice(["x", "y", "other", "long other name",
                                   "a name longer than any in use here"])))
            return "<mws:qvar name=%s/>" % qa(t.name)
        return "<mws:qvar>%s</mws:qvar>" % escape(t.name)
    if isinstance(t, Range):
        s = "<mws:range"
        if t.low is not None:
            s += " low=%s" % qa(t.low)
        if t.high is not None:
            s += " high=%s" % qa(t.high)
        return s + (">%s</mws:range>" % t.inner if t.inner else "/>")
    tag = st.tag(t.tag)
    a = st.attrs(t)
    txt = st.text(t.text)
    if not txt and not t.kids:
        return "<%s%s/>" % (tag, a) if not st.p(.3) else \
            "<%s%s></%s>" % (tag, a, tag)
    kids = [to_xml(k, st) for k in t.kids]
    out = ["<", tag, a, ">", txt]
    for k in kids:
        out.append(st.gap())
        out.append(k)
    out.append(st.gap() if kids else "")
    out.append("</%s>" % tag)
    return "".join(out)


# --- harvest ---------------------------------------------------------------
HARVEST_HEAD = ('<?xml version="1.0" encoding="UTF-8"?>\n'
                '<mws:harvest xmlns:mws="http://search.mathweb.org/ns" '
                'xmlns:m="http://www.w3.org/1998/Math/MathML">\n')
HARVEST_TAIL = "</mws:harvest>\n"


class Expr:
    """One mws:expr: root terms (normally one), url, id of its data."""

    def __init__(self, roots, url, data_id=None):
        self.roots = roots
        self.url = url
        self.data_id = data_id


class Data:
    def __init__(self, data_id, xml):
        self.data_id = data_id
        self.xml = xml


class HarvestFile:
    def __init__(self, name, items):
        self.name = name        # relative path
        self.items = items      # Expr / Data in document order

    def to_xml(self, st=PLAIN):
        out = [HARVEST_HEAD]
        for it in self.items:
            if isinstance(it, Data):
                out.append('<mws:data mws:data_id=%s>%s</mws:data>\n' %
                           (qa(it.data_id), it.xml))
            else:
                out.append('<mws:expr url=%s%s>' % (
                    qa(it.url),
                    "" if it.data_id is None else
                    " mws:data_id=%s" % qa(it.data_id)))
                for r in it.roots:
                    out.append(st.gap())
                    out.append(to_xml(r, st))
                out.append("</mws:expr>\n")
        out.append(HARVEST_TAIL)
        return "".join(out)


# --- reference index -------------------------------------------------------
class Index:
    """All (expression, distinct subterm) pairs of a list of files."""

    def __init__(self, rename=None):
        self.intern = {}
        self.nodes = []          # id -> (meaning, kids ids, encodable)
        self.hits = []           # id -> list of (url, xpath, data, expr no)
        self.exprs = []          # (url, data, root term)
        self.rename = rename     # per-expression renaming of meanings

    def _id(self, meaning, kids):
        k = (meaning, kids)
        i = self.intern.get(k)
        if i is None:
            i = len(self.nodes)
            self.intern[k] = i
            enc = len(kids) <= MAX_ARITY and \
                all(self.nodes[c][2] for c in kids)
            self.nodes.append((meaning, kids, enc))
            self.hits.append([])
        return i

    def add_term(self, t, xpath="/*[1]", meanings=None):
        """Interns bottom-up, records ids and xpaths on the nodes."""
        kids = tuple(self.add_term(c, "%s/*[%d]" % (xpath, j + 1), meanings)
                     for j, c in enumerate(t.kids))
        m = meanings(t) if meanings else t.meaning()
        t.xpath = xpath
        t.id = self._id(m, kids)
        return t.id

    def add_file(self, hf, ignore_data=False):
        seen = {}
        n = 0
        for it in hf.items:
            if isinstance(it, Data):
                seen[it.data_id] = it.xml
                continue
            data = "" if it.data_id is None else seen.get(it.data_id, "")
            if ignore_data:
                data = ""
            for r in it.roots:
                n += self.add_expr(r, it.url, data)
        return n

    def add_open_term(self, root):
        """The same for terms with variables: their names only mean
        something within the subterm looked at."""
        def xp(t, xpath):
            t.xpath = xpath
            for j, c in enumerate(t.kids):
                xp(c, "%s/*[%d]" % (xpath, j + 1))
        xp(root, "/*[1]")
        for s in root.subterms():
            names = {}
            n = [0]

            def rec(t):
                if isinstance(t, Range):
                    raise ValueError("no ranges here")
                if isinstance(t, QVar):
                    if t.name:
                        k = names.setdefault(t.name, len(names) + 1)
                        return self._id("\0named%d" % k, ())
                    n[0] += 1
                    return self._id("\0anon%d" % min(n[0], 32), ())
                return self._id(t.meaning(), tuple(rec(k) for k in t.kids))
            s.id = rec(s)

    def add_expr(self, root, url, data):
        if any(isinstance(s, (QVar, Range)) for s in root.subterms()):
            self.add_open_term(root)
        else:
            self.add_term(root)
        no = len(self.exprs)
        self.exprs.append((url, data, root))
        seen = set()
        for s in root.subterms():
            if s.id in seen or not self.nodes[s.id][2]:
                continue
            seen.add(s.id)
            self.hits[s.id].append((url, s.xpath, data, no))
        return len(seen)

    def total_hits(self):
        return sum(len(h) for h in self.hits)

    def distinct(self):
        return sum(1 for h in self.hits if h)

    # matching
    def match(self, q, i, env):
        if isinstance(q, QVar):
            if q.name:
                b = env.get(q.name)
                if b is None:
                    env[q.name] = i
                    return True
                return b == i
            return True
        meaning, kids, _ = self.nodes[i]
        if isinstance(q, Range):
            return not kids and in_range(q, meaning)
        if len(q.kids) != len(kids) or q.meaning() != meaning:
            return False
        for a, b in zip(q.kids, kids):
            if not self.match(a, b, env):
                return False
        return True

    def search_ids(self, q):
        return [i for i in range(len(self.nodes))
                if self.hits[i] and self.match(q, i, {})]

    def search(self, q):
        """Multiset (list) of (url, xpath, data)."""
        out = []
        for i in self.search_ids(q):
            out.extend(h[:3] for h in self.hits[i])
        return out

    def known_constants(self, q):
        """All constants of q occur in the collection."""
        ms = {m for m, _, _ in self.nodes}
        return all(isinstance(s, (QVar, Range)) or s.meaning() in ms
                   for s in q.subterms())


NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")


def stod(s):
    """C strtod prefix parse, None when there is no number. Only used on
    decimal text (the generators do not produce hex, inf or nan)."""
    s = s.lstrip(WS)
    m = NUM.match(s)
    if not m:
        return None
    v = float(m.group(0))
    if v in (float("inf"), float("-inf")):
        return None
    return v


def in_range(q, meaning):
    if not meaning.startswith("cn#"):
        return False
    v = stod(meaning[3:])
    if v is None:
        return False
    lo = stod(q.low) if q.low is not None else None
    hi = stod(q.high) if q.high is not None else None
    return (lo is None or lo <= v) and (hi is None or v <= hi)


# --- queries ---------------------------------------------------------------
def query_xml(roots, limitmin=None, answsize=None, output=None, st=PLAIN,
              extra="", totalreq=None):
    if isinstance(roots, T):
        roots = [roots]
    a = ""
    if limitmin is not None:
        a += ' limitmin="%s"' % limitmin
    if answsize is not None:
        a += ' answsize="%s"' % answsize
    if totalreq is not None:
        a += ' totalreq="%s"' % totalreq
    if output is not None:
        a += ' output="%s"' % output
    return ('<mws:query xmlns:mws="http://www.mathweb.org/mws/ns" '
            'xmlns:m="http://www.w3.org/1998/Math/MathML"%s%s>' % (a, extra) +
            "".join("<mws:expr>%s</mws:expr>" % to_xml(r, st)
                    for r in roots) + "</mws:query>")


def encoded(rng, x):
    """The bytes of an XML text in some encoding, declared as what it is."""
    if rng.random() < .2:
        return x.encode("utf-8-sig", "surrogateescape")
    try:
        enc = rng.choice(["UTF-16", "ISO-8859-1", "windows-1252"])
        decl = '<?xml version="1.0" encoding="%s"?>' % enc
        y, n = re.subn(r"\A<\?xml [^>]*\?>", decl, x)
        return (y if n else decl + x).encode(enc)
    except UnicodeEncodeError:
        return x.encode("utf-8", "surrogateescape")


def named_qvars(q, xpath=""):
    """[(name, relative xpath)] in reading order, one per occurrence."""
    out = []
    if isinstance(q, QVar):
        if q.name:
            out.append((q.name, xpath))
        return out
    for j, k in enumerate(q.kids):
        out.extend(named_qvars(k, "%s/*[%d]" % (xpath, j + 1)))
    return out


STEP = re.compile(r"/\*\[(\d+)\]")


def follow(root, xpath):
    """Node at an answer position in the expression's root, or None."""
    steps = STEP.findall(xpath)
    if "".join("/*[%s]" % s for s in steps) != xpath:
        return None
    if not steps or steps[0] != "1":
        return None
    t = root
    for s in steps[1:]:
        i = int(s) - 1
        if i < 0 or i >= len(t.kids):
            return None
        t = t.kids[i]
    return t


# --- generation ------------------------------------------------------------
def long_words(rng, lengths=(254, 255, 256, 257, 299, 300, 301, 511, 512,
                              513, 600, 1023, 1025, 3999, 4000, 4001, 5000,
                              8191, 8193, 16383, 16385, 32769, 65535, 65537,
                              70000)):
    """Pairs of long words which differ in one character only."""
    out = []
    for n in lengths:
        chars = rng.choice(["ab", "xyz0", "a\u00e9\u4e2d", "q&<>",
                            "k\U0001d400", "0123456789"])
        w = "".join(rng.choice(chars) for _ in range(n))
        i = rng.choice([0, n - 1, n // 2, min(n - 1, 255), min(n - 1, 256),
                        min(n - 1, 300), rng.randrange(n)])
        c = rng.choice([x for x in chars + "!" if x != w[i]])
        out += [w, w[:i] + c + w[i + 1:], w[:-1]]
    return out


def many_vars(rng, t):
    """t with dozens of its children replaced by variables; equal children
    may share one, and sometimes two different ones wrongly do."""
    t = t.clone()
    n = 0
    mine = {}
    p = rng.choice([.5, .9, 1])
    share = rng.choice([0, .1, .3])
    was = {}
    for i, k in enumerate(t.kids):
        was[i] = k.key()
        if rng.random() > p:
            continue
        old = mine.get(k.key())
        if old and (n >= 60 or rng.random() < share):
            t.kids[i] = QVar(rng.choice(old))
        elif n < 60:
            n += 1
            v = QVar("v%d" % n if rng.random() < .9 else "")
            t.kids[i] = v
            if v.name:
                mine.setdefault(k.key(), []).append(v.name)
    vs = [i for i, k in enumerate(t.kids) if isinstance(k, QVar) and k.name]
    if rng.random() < .6 and len(vs) > 2:
        j = rng.choice(vs[len(vs) // 2:])
        other = [i for i in vs if i < j and was[i] != was[j]]
        if other:
            t.kids[j].name = t.kids[rng.choice(other)].name
    return t


class Gen:
    """Random harvests and queries. The vocabulary is small so that
    subterms recur, inside one expression and across expressions."""

    TAGS = ["apply", "apply", "apply", "bind", "lambda", "set", "list",
            "interval", "cerror", "bvar"]
    HEADS = ["plus", "times", "eq", "sin", "minus", "power", "root", "int",
             "limit", "csymbol", "ci"]
    LEAFS = ["ci", "ci", "ci", "cn", "cn", "csymbol", "mtext", "pi",
             "infinity", "cs"]
    NEARLY = ["mtextual", "mtex", "cns", "acn", "cis", "aci", "c", "expr",
              "data", "qvars", "harvest", "query", "mws", "semantic"]
    WORDS = ["x", "y", "z", "a", "n", "f", "P", "p", "alpha", "xy", "x1",
             "foo", "bar", "\u03b1", "\u00e9t\u00e9", "\U0001d400",
             "a&b", "<t>", "q\"uote'", "back\\slash", "a#b", "1", "]]>",
             "%s%n", "\u00a0nb", "~1", "{}", "/*[1]"]
    NUMS = ["0", "1", "2", "3", "10", "100", "-1", "-2.5", "0.5", "1.0",
            "3.14", "1e3", "-7", "42", "007", "+5", ".5", "1e-3", "99.99"]

    def __init__(self, rng, words=None, nums=None, leafs=None, tags=None,
                 heads=None, head_text=True, mixed=True, maxdepth=4,
                 maxkids=4):
        self.rng = rng
        self.words = words or self.WORDS
        self.nums = nums or self.NUMS
        self.leafs = leafs or self.LEAFS
        self.tags = tags or self.TAGS
        self.heads = heads or self.HEADS
        self.maxdepth = maxdepth
        self.maxkids = maxkids
        self.mixed = mixed
        self.pool = []

    def leaf(self):
        r = self.rng
        tag = r.choice(self.leafs)
        if tag == "cn":
            return T("cn", r.choice(self.nums))
        if tag in ("pi", "infinity"):
            return T(tag)
        if tag == "csymbol" and self.leafs is self.LEAFS and r.random() < .2:
            # names that begin, or end, like those with a meaning of their own
            tag = r.choice(self.NEARLY)
        if tag == "mtext":
            return T("mtext", r.choice(["some text", "other", ""]))
        return T(tag, r.choice(self.words))

    def head(self):
        r = self.rng
        h = r.choice(self.heads)
        if h in ("csymbol", "ci"):
            return T(h, r.choice(self.words[:8]))
        return T(h)

    def term(self, depth=None):
        r = self.rng
        if depth is None:
            depth = r.randint(0, self.maxdepth)
        if self.pool and r.random() < .15:
            t = r.choice(self.pool)
            if t.depth() <= max(depth, 0):
                return t.clone()
        if depth <= 0 or r.random() < .12:
            return self.leaf()
        tag = r.choice(self.tags)
        n = r.randint(1, self.maxkids)
        kids = []
        if tag == "apply":
            kids.append(self.head() if r.random() < .85 else
                        self.term(depth - 1))
            n = r.randint(0 if r.random() < .1 else 1, self.maxkids)
        kids += [self.term(depth - 1) for _ in range(n)]
        if r.random() < .2 and len(kids) > 1:
            kids[-1] = kids[r.randrange(len(kids) - 1)].clone()
        t = T(tag, "", kids)
        if self.mixed and r.random() < .03:
            t.text = r.choice(self.words)
        if len(self.pool) < 60:
            self.pool.append(t)
        elif r.random() < .1:
            self.pool[r.randrange(60)] = t
        return t

    def url(self, i):
        r = self.rng
        base = r.choice(["http://ex.org/d%d#f%d", "doc%d.xhtml#m%d",
                         "u%d?a=1&b=%d", "\u00fcrl/%d/<\"'>%d",
                         "%d-%d"])
        return base % (r.randrange(50), i)

    def data_xml(self, i):
        return "<title>t%d</title>" % i

    def file(self, name, nexpr, start=0, with_data=True):
        r = self.rng
        items = []
        ids = []
        for i in range(nexpr):
            if with_data and r.random() < .25:
                did = "d%d" % r.randrange(12)
                items.append(Data(did, self.data_xml(start * 1000 + i)))
                ids.append(did)
            t = self.term()
            if r.random() < .1 and items:
                prev = [x for x in items if isinstance(x, Expr)]
                if prev:
                    t = r.choice(prev).roots[0].clone()
            did = None
            if with_data and r.random() < .7:
                did = r.choice(ids) if ids and r.random() < .9 else "nope"
            items.append(Expr([t], self.url(start + i), did))
        return HarvestFile(name, items)

    # --- queries
    def generalise(self, t, pvar=.25, names=("x", "y", "z"), anon=.25,
                   ranges=.0, memo=None):
        """Replaces random parts by variables; equal parts tend to get the
        same name, so that a share of the queries match."""
        r = self.rng
        if memo is None:
            memo = {}
        if r.random() < pvar:
            if r.random() < anon:
                return QVar("")
            if t.tag == "cn" and not t.kids and r.random() < ranges:
                return self.range_for(t)
            k = t.key()
            if k in memo and r.random() < .9:
                return QVar(memo[k], r.choice(["attr", "text"]))
            if r.random() < .15:
                n = r.choice(names)
            else:
                n = "%s%d" % (r.choice(names), len(memo))
            memo[k] = n
            return QVar(n, r.choice(["attr", "text"]))
        if isinstance(t, (QVar, Range)):
            return t.clone()
        if t.tag == "cn" and not t.kids and r.random() < ranges:
            return self.range_for(t)
        return T(t.tag, t.text, [self.generalise(k, pvar, names, anon, ranges,
                                                 memo) for k in t.kids])

    def range_for(self, t):
        r = self.rng
        v = stod(t.text)
        if v is None or r.random() < .2:
            v = stod(r.choice(self.nums)) or 0.0
        lo = hi = None
        if r.random() < .8:
            lo = repr(v - r.choice([0, 0, .5, 1, 10, 1000]))
        if r.random() < .8:
            hi = repr(v + r.choice([0, 0, .5, 1, 10, 1000]))
        if r.random() < .1:
            lo, hi = hi, lo
        if r.random() < .08:
            lo = r.choice(["", "abc", "-", None])
        return Range(lo, hi)

    def mutate(self, t):
        r = self.rng
        t = t.clone()
        nodes = list(t.subterms())
        n = r.choice(nodes)
        k = r.randrange(5)
        if isinstance(n, (QVar, Range)):
            return t
        if k == 0:
            n.text = r.choice(self.words + self.nums)
        elif k == 1:
            n.kids.append(self.leaf())
        elif k == 2 and n.kids:
            n.kids.pop(r.randrange(len(n.kids)))
        elif k == 3 and len(n.kids) > 1:
            r.shuffle(n.kids)
        else:
            n.tag = r.choice(["apply", "bind", "ci", "cn", "set"])
        return t

    def query(self, roots, ranges=.0):
        """A query against a collection with these root terms."""
        r = self.rng
        k = r.random()
        if k < .02:
            return QVar(r.choice(["", "x"]))
        if k < .05 and ranges:
            return self.range_for(T("cn", r.choice(self.nums)))
        root = r.choice(roots)
        subs = list(root.subterms())
        big = [s for s in subs if s.kids]
        s = r.choice(big) if big and r.random() < .85 else r.choice(subs)
        if r.random() < .25:
            s = root
        if k < .2:
            return s.clone()
        q = self.generalise(s, r.choice([.1, .25, .4, .6]), ranges=ranges)
        if r.random() < .15:
            q = self.mutate(q)
        return q


# --- alpha renaming (enable-ci-renaming) -----------------------------------
def renamable(t, parent):
    if t.tag != "ci":
        return False
    x = nows(t.text)
    if len(x) > 1 or x in ("P", "p"):
        return False
    if parent is not None and parent.tag == "apply" and parent.kids[0] is t:
        return False
    return True


def rename_key(root):
    """Canonical key of a complete expression up to consistent one-to-one
    renaming of renamable identifiers."""
    names = {}

    def rec(t, parent):
        m = t.meaning()
        if renamable(t, parent):
            m = "~%d" % names.setdefault(m, len(names) + 1)
        return (m, tuple(rec(k, t) for k in t.kids))
    return rec(root, None)
