"""Random XHTML / XML / HTML documents with known formulas and texts."""
import re
from xml.sax.saxutils import escape, quoteattr

MML = "http://www.w3.org/1998/Math/MathML"
XHTML = "http://www.w3.org/1999/xhtml"
WORDS = ["alpha", "a&b", "x<y", "\u00e9t\u00e9", "\u4e2d\u6587", "\"q\"",
         "it's", "1+1", "\U0001d400", "]]>", "math1", "{}", "%s", "\\n",
         "--", "&amp;", "\u00a0", "word", "other", "tail"]
NAMES = ["apply", "plus", "times", "eq", "ci", "cn", "csymbol", "lambda",
         "bvar", "interval", "sin", "power", "share", "cs", "mtext"]
DOCTYPE = ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.1 plus MathML 2.0//EN"'
           ' "http://www.w3.org/Math/DTD/mathml2/xhtml-math11-f.dtd"')
ENTITIES = {"mine": "my own", "both": "a &#38;amp; b", "uni": "\u2200"}
ENTITY_TEXT = {"mine": "my own", "both": "a & b", "uni": "\u2200"}
# entities of the HTML set, replaced when the document does not declare them
HTML_ENT = {"alpha": "\u03b1", "int": "\u222b", "nbsp": "\u00a0"}


class E:
    """An element: attrs is a list of (name as written, value)."""

    def __init__(self, name, attrs=(), items=()):
        self.name = name
        self.attrs = list(attrs)
        self.items = list(items)

    def elements(self):
        return [i for i in self.items if isinstance(i, E)]


class Raw:
    """Markup whose text in the document is .text (entities, CDATA)."""

    def __init__(self, xml, text):
        self.xml = xml
        self.text = text


class Math:
    def __init__(self, mid, content, xml, prefix):
        self.id = mid            # None: without identifier
        self.content = content   # None: without content markup
        self.e = xml             # the element
        self.prefix = prefix


def canon(e, keep=False):
    """Names without namespace, attributes but id and xref, text with blank
    edges removed."""
    items = []
    cur = ""
    for i in e.items:
        if isinstance(i, E):
            items.append(cur.strip(" \t\n\r"))
            cur = ""
            items.append(canon(i, keep))
        elif isinstance(i, Raw):
            cur += i.text
        else:
            cur += i
    items.append(cur.strip(" \t\n\r"))
    # of two attributes that differ in their namespace only, the plain one
    # where names lose theirs
    plain = [] if keep else [k for k, v in e.attrs if ":" not in k]
    at = sorted((k.rsplit(":", 1)[-1] if not k.startswith("xml:") else k, v)
                for k, v in e.attrs
                if k not in ("id", "xref") and not k.startswith("xmlns") and
                (k.startswith("xml:") or k.rsplit(":", 1)[-1] not in plain or
                 ":" not in k))
    return (e.name.rsplit(":", 1)[-1], at, items)


def canon_et(x, drop=True):
    """The same for an ElementTree element."""
    def local(n):
        if n.startswith("{http://www.w3.org/XML/1998/namespace}"):
            return "xml:" + n.rsplit("}", 1)[1]
        return n.rsplit("}", 1)[-1].rsplit(":", 1)[-1]
    items = [(x.text or "").strip(" \t\n\r")]
    for k in x:
        items.append(canon_et(k, drop))
        items.append((k.tail or "").strip(" \t\n\r"))
    at = sorted((local(k), v) for k, v in x.attrib.items()
                if not (drop and k in ("id", "xref")))
    return (local(x.tag), at, items)


class Doc:
    def __init__(self, rng, kind, n):
        self.rng = rng
        self.kind = kind             # xhtml, xml, html
        self.n = n
        self.maths = []
        self.nmath = 0
        self.entities = kind == "xhtml" and rng.random() < .4
        self.title = self.words(3)
        self.author = self.words(2)
        self.main = []               # items of the marked part
        self.items = []
        # a main part that is the document's first <div class="main">
        pre = self.block(rng.randint(0, 3))
        self.main = self.block(rng.randint(1, 7), 2)
        post = self.block(rng.randint(0, 3))
        self.items = pre + [E("div", [("class", "main")], self.main)] + post

    def words(self, n):
        return " ".join(self.rng.choice(WORDS) for _ in range(
            self.rng.randint(1, n)))

    # --- text --------------------------------------------------------------
    def text(self):
        rng = self.rng
        s = self.words(5)
        if rng.random() < .3:
            s = rng.choice(["\n  ", "  ", "\t"]) + s + rng.choice(["\n", "  "])
        return s

    def block(self, n, depth=3):
        rng = self.rng
        out = []
        for _ in range(n):
            k = rng.random()
            if k < .45:
                out.append(self.text())
            elif k < .8:
                out.append(self.math())
            elif k < .93 and depth:
                out.append(E(rng.choice(["div" if self.kind == "html" else
                                         "p", "div", "span", "em",
                                         "section"]),
                             [] if rng.random() < .5 else
                             [("class", self.words(2))],
                             self.block(rng.randint(0, 4), depth - 1)))
            elif k < .97:
                out.append(Raw("<!-- c & <d> -->", ""))
            elif self.kind == "html":
                out.append(Raw(rng.choice(["<br>", "<img src=x>",
                                              "<BR/>"]),
                               " "))
            else:
                out.append(Raw("<?pi some thing?>", ""))
        return out

    # --- formulas ----------------------------------------------------------
    def attr(self, pfx):
        rng = self.rng
        names = ["id", "xref", "class", "cd", "type", "base"]
        if self.kind != "html":
            names += ["xlink:href", "xml:lang", "definitionURL", "href"]
        out = []
        for k in rng.sample(names, rng.choice([0, 0, 0, 1, 1, 2, 3])):
            v = self.words(2) if k != "xml:lang" else "en"
            if k in ("id", "xref"):
                v = "i%d" % rng.randrange(10 ** 6)
            if k == "class" and v == "":
                continue
            out.append((k, v))
        return out

    def content(self, pfx, depth=None):
        rng = self.rng
        if depth is None:
            depth = rng.choice([0, 1, 1, 2, 2, 3, 5])
        items = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth == 0 else
                       rng.choice([1, 2, 2, 3, 4])):
            k = rng.random()
            if depth and k < .7:
                items.append(self.content(pfx, rng.randrange(depth)))
            elif k < .8:
                items.append(Raw(rng.choice(
                    ["<!-- x -->", "<!--a&b<c>-->"] +
                    (["<!-- a -- b -->"] if self.kind == "html" else
                     ["<?p i?>"])), ""))
            elif k < .85 and self.kind != "html":
                items.append(Raw("<![CDATA[a<b&c]]>", "a<b&c"))
            elif k < .9 and (self.entities or self.kind == "html"):
                if self.entities and rng.random() < .7:
                    e = rng.choice(sorted(ENTITIES))
                    if rng.random() < .1:
                        # declared elsewhere, if at all
                        items.append(Raw("&nope;", "&nope;"))
                        continue
                    items.append(Raw("&%s;" % e, ENTITY_TEXT[e]))
                else:
                    e = rng.choice(sorted(HTML_ENT))
                    items.append(Raw("&%s;" % e, HTML_ENT[e]))
            else:
                items.append(rng.choice(WORDS) if depth == 0 or k > .97
                             else " ")
        return E(pfx + rng.choice(NAMES), self.attr(pfx), items)

    def math(self):
        rng = self.rng
        pfx = "" if self.kind == "html" else rng.choice(["", "m:", "mml:"])
        self.nmath += 1
        mid = rng.choice(["m%d.%d", "S%d.E%d", "a&b%d<%d>", "\u00e9-%d-%d"]) \
            % (self.n, self.nmath)
        if rng.random() < .15:
            mid = None
        at = []
        if pfx:
            at.append(("xmlns:" + pfx[:-1], MML))
        elif rng.random() < .8:
            at.append(("xmlns", MML))
        if mid is not None:
            at.insert(rng.randint(0, len(at)), ("id", mid))
        if rng.random() < .3:
            at.append(("alttext", self.words(2)))
        pres = E(pfx + "mrow", [], [E(pfx + "mi", [("id", "q")],
                                      [rng.choice(WORDS)]),
                                    E(pfx + "mo", [], ["="])])
        kids = []
        content = None
        sem = [pres]
        enc = "annotation-xml"
        for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2])):
            k = rng.random()
            ann = E(pfx + enc, [("encoding", "MathML-Content")])
            if rng.random() < .2:
                ann.attrs.insert(0, ("id", "ann"))
            if k < .1:
                # another encoding
                ann.attrs[-1] = ("encoding", rng.choice(
                    ["MathML-Presentation", "application/x-tex",
                     "mathml-content", "MathML-Content ", "OpenMath"]))
                ann.items = [self.content(pfx)]
            elif k < .18:
                ann.items = [rng.choice(WORDS)]
            else:
                c = self.content(pfx)
                ann.items = [" ", c]
                if rng.random() < .2:
                    ann.items.append(self.content(pfx))
                if rng.random() < .2:
                    ann.items.insert(0, Raw("<!-- c -->", ""))
                if content is None:
                    content = c
            sem.append(ann)
        if rng.random() < .3:
            sem.append(E(pfx + "annotation",
                         [("encoding", "application/x-tex")], ["\\frac{a}{b}"]
                         ))
        if rng.random() < .1:
            kids = sem
        else:
            kids = [E(pfx + "semantics", [], sem)]
        if content is not None and self.kind == "html" and \
                rng.random() < .08:
            # nothing XML can say: this formula is left out, and only this
            c = content
            while rng.random() < .5 and \
                    any(isinstance(i, E) for i in c.items):
                c = rng.choice([i for i in c.items if isinstance(i, E)])
            c.attrs.append(rng.choice([(".a", "1"), (".", ""),
                                       ("data-a", "x\x02y")]))
            content = None
        m = Math(mid, content, E(pfx + "math", at, kids), pfx)
        self.maths.append(m)
        return m

    # --- writing -----------------------------------------------------------
    def esc(self, s):
        if self.kind != "html" and self.rng.random() < .1:
            return "".join("&#%d;" % ord(c) for c in s)
        return escape(s, {"]]>": "]]&gt;"})

    def ser(self, i, inmath=False):
        rng = self.rng
        if isinstance(i, str):
            return self.esc(i)
        if isinstance(i, Raw):
            return i.xml
        if isinstance(i, Math):
            return self.ser(i.e, True)
        name = i.name
        if self.kind == "html" and not inmath and rng.random() < .2:
            name = name.upper()
        a = ""
        for k, v in i.attrs:
            a += " %s=%s" % (k, quoteattr(v))
        if not i.items:
            if self.kind != "html" or inmath:
                if rng.random() < .5:
                    return "<%s%s/>" % (name, a)
        body = "".join(self.ser(k, inmath) for k in i.items)
        return "<%s%s>%s</%s>" % (name, a, body, name)

    def render(self):
        rng = self.rng
        body = "".join(self.ser(i) for i in self.items)
        t = self.esc(self.title)
        au = quoteattr(self.author)
        if self.kind == "xhtml":
            dt = ""
            if self.entities:
                dt = DOCTYPE + " [" + "".join(
                    '<!ENTITY %s "%s">' % kv for kv in
                    sorted(ENTITIES.items())) + "]>\n"
            elif rng.random() < .3:
                dt = DOCTYPE + ">\n"
            return ('<?xml version="1.0" encoding="UTF-8"?>\n' + dt +
                    '<html xmlns="%s" xmlns:xlink="http://www.w3.org/1999/'
                    'xlink"><head><title>%s</title><meta name="author" '
                    'content=%s/></head><body>%s</body></html>\n' %
                    (XHTML, t, au, body))
        if self.kind == "xml":
            return ('<?xml version="1.0"?>\n<article xmlns:xlink="X">'
                    '<title>%s</title><meta name="author" content=%s/>'
                    '<body>%s</body></article>' % (t, au, body))
        return ('<!DOCTYPE html>\n<html><head><meta charset="utf-8">'
                '<title>%s</title><meta name=author content=%s></head>'
                '<body>%s</body></html>\n' % (t, au, body))

    def written(self):
        """(text, bytes): the document, mostly in UTF-8, sometimes in another
        encoding that it declares. Entities and character references make no
        difference."""
        rng = self.rng
        x = self.render()
        if rng.random() < .7:
            return x, x.encode("utf-8")
        enc = rng.choice(["utf-8-sig", "utf-16", "iso-8859-1",
                          "windows-1252"])
        name = {"utf-8-sig": "UTF-8", "utf-16": "UTF-16"}.get(enc, enc)
        if self.kind == "html":
            y = x.replace('charset="utf-8"', 'charset="%s"' % name)
            if rng.random() < .5:
                y = y.replace('<meta charset="%s">' % name,
                              '<meta http-equiv="Content-Type" '
                              'content="text/html; charset=%s">' % name)
        else:
            y = re.sub(r"\A<\?xml [^>]*\?>", '<?xml version="1.0" '
                       'encoding="%s"?>' % rng.choice(
                           [name, name.lower(), name.upper()]), x)
        return y, y.encode(enc, "xmlcharrefreplace")

    # --- what must come out ------------------------------------------------
    def tokens(self, items, number):
        """Whitespace separated tokens of the text of items; formulas with
        an identifier stand as math<number>. In C, blanks are ASCII only."""
        out = []

        def add(s):
            cur = ""
            for c in s:
                if c in " \t\n\v\f\r":
                    if cur:
                        out.append(cur)
                    cur = ""
                else:
                    cur += c
            if cur:
                out.append(cur)

        def walk(its):
            run = ""
            for i in its:
                if isinstance(i, str):
                    run += i
                    continue
                add(run)
                run = ""
                if isinstance(i, Math):
                    if i.id is not None:
                        out.append("math%s" % number(i.id))
                elif isinstance(i, E):
                    walk(i.items)
            add(run)
        walk(items)
        return out

    def exported(self):
        return [m for m in self.maths
                if m.id is not None and m.content is not None]
