"""Hostile request bodies and XML documents."""
import random
import re

from .model import *

TOKENS = [b"<", b">", b"/>", b"</", b"\"", b"'", b"&", b";", b"&amp;", b"&lt;",
          b"&#0;", b"&#x10FFFF;", b"&#55555555555;", b"<![CDATA[", b"]]>",
          b"<!--", b"-->", b"<?x ?>", b"<!DOCTYPE a [<!ENTITY b 'c'>]>",
          b"<?xml version='1.0' encoding='UTF-16'?>", b"mws:query",
          b"mws:expr", b"mws:qvar", b"mws:range", b"m:apply", b"<apply>",
          b"</apply>", b"<mws:qvar/>", b"<mws:qvar>", b"<mws:range/>",
          b" name=''", b" name='x'", b" low='1'", b" high='nan'",
          b" answsize='0'", b" limitmin='5'", b"\0", b"\xff", b"\xef\xbb\xbf",
          b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"%s%n", b"\r\n",
          b"<mws:data mws:data_id='d'>", b"</mws:data>", b"mws:harvest",
          b"<mws:expr>", b"</mws:expr>", b" url='u'", b" schema_depth='-1'",
          b"cutoff_mode='R'", b"xmlns:mws='u'", b"xmlns='v'", b"output='json'"]

NUMBERS = ["0", "-1", "1", "2147483647", "2147483648", "-2147483648",
           "4294967295", "4294967296", "9223372036854775807",
           "99999999999999999999999", "", " ", "x", "1e9", "0x10", "+5",
           " 7 ", "1.5", "-0", "NaN", "255", "256", "65536", "100000",
           "\u0661"]
FLOATS = NUMBERS + ["inf", "-inf", "nan", "1e308", "1e309", "-1e309", "1e-400",
                    "0x1p3", "1,5", "..", "-", "1" * 400, "infinity", "NAN(1)"]


def mutate(rng, data, others=()):
    """Byte- and token-level mutations."""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        k = rng.randrange(12)
        n = len(b)
        p = rng.randrange(n + 1)
        if k == 0 and n:
            b[rng.randrange(n)] = rng.randrange(256)
        elif k == 1 and n:
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        elif k == 2:
            b[p:p] = rng.choice(TOKENS)
        elif k == 3:
            q = min(n, p + rng.choice([1, 2, 5, 20, 200]))
            del b[p:q]
        elif k == 4 and n:
            q = min(n, p + rng.choice([1, 5, 50, 500]))
            b[p:p] = b[p:q] * rng.choice([1, 1, 2, 20])
        elif k == 5:
            del b[p:]
        elif k == 6 and others:
            o = rng.choice(others)
            i = rng.randrange(len(o) + 1)
            b[p:] = o[i:]
        elif k == 7:
            tags = [(m.start(), m.end()) for m in
                    re.finditer(rb"<[^<>]*>", bytes(b))]
            if tags:
                s, e = rng.choice(tags)
                if rng.random() < .5:
                    del b[s:e]
                else:
                    s2, e2 = rng.choice(tags)
                    b[s:e] = b[s2:e2]
        elif k == 8:
            names = [(m.start(1), m.end(1)) for m in
                     re.finditer(rb"</?([\w:]+)", bytes(b))]
            if names:
                s, e = rng.choice(names)
                b[s:e] = rng.choice([b"mws:qvar", b"mws:range", b"mws:expr",
                                     b"apply", b"cn", b"ci", b"mtext",
                                     b"mws:query", b"a" * 300, b"m:",
                                     b"mws:data", b"mws:harvest", b"cerror"])
        elif k == 9:
            vals = [(m.start(1), m.end(1)) for m in
                    re.finditer(rb"=[\"']([^\"'<]*)[\"']", bytes(b))]
            if vals:
                s, e = rng.choice(vals)
                b[s:e] = rng.choice(FLOATS + ["a" * 5000, "&amp;" * 50,
                                              "%n" * 20]).encode()
        elif k == 10:
            b[p:p] = bytes(rng.randrange(256) for _ in range(
                rng.choice([1, 4, 50])))
        else:
            b[p:p] = rng.choice([b" ", b"\n", b"\t"]) * rng.choice(
                [1, 100, 5000])
    return bytes(b)


def nest(tag, n, inner=""):
    return ("<%s>" % tag) * n + inner + ("</%s>" % tag) * n


def extreme_term(rng):
    """XML text of one unusual but mostly well-formed term."""
    k = rng.randrange(18)
    big = rng.choice([2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 160,
                      161, 200, 250, 254, 255, 256, 257, 600, 3000])
    if k == 0:
        return "<apply>" + "<mws:qvar/>" * big + "</apply>"
    if k == 1:
        return "<apply>" + "".join("<mws:qvar>v%d</mws:qvar>" % i
                                   for i in range(big)) + "</apply>"
    if k == 2:
        return "<apply>" + "".join("<mws:range low='%s' high='%s'/>" % (
            rng.choice(FLOATS), rng.choice(FLOATS)) for i in range(big)) + \
            "</apply>"
    if k == 3:
        return nest(rng.choice(["apply", "mws:qvar", "mws:range", "m:x",
                                "mtext"]), min(big, 300),
                    rng.choice(["", "x", "<ci>x</ci>"]))
    if k == 4:
        return "<apply>" + "<ci>x</ci>" * big + "</apply>"
    if k == 5:
        return "<mws:qvar name='a'><apply>%s</apply></mws:qvar>" % (
            "<mws:qvar>b</mws:qvar>" * min(big, 300))
    if k == 6:
        return "<ci>%s</ci>" % ("x" * rng.choice([10, 1000, 100000, 1000000]))
    if k == 7:
        return "<%s/>" % ("t" * rng.choice([10, 1000, 40000]))
    if k == 8:
        return "<ci %s/>" % " ".join("a%d='%d'" % (i, i) for i in range(
            min(big, 400)))
    if k == 9:
        # a binary tree of variables below many levels
        def tree(d):
            if d == 0:
                return rng.choice(["<mws:qvar/>", "<mws:qvar>x</mws:qvar>",
                                   "<ci>x</ci>"])
            return "<apply><plus/>%s%s</apply>" % (tree(d - 1), tree(d - 1))
        return tree(rng.randint(1, 7))
    if k == 10:
        return rng.choice(["", "text", "<!-- c -->", "<?pi?>", "<a/><b/><c/>",
                           "<mws:expr/>", "<mws:expr><ci>x</ci></mws:expr>",
                           "<mws:query/>", "<mws:data/>", "<m:/>", "<m:m:a/>",
                           "<_/>"])
    if k == 11:
        return "<mws:range %s>%s</mws:range>" % (
            rng.choice(["", "low='1' low2='2'", "high=''", "name='x'",
                        "low='5' high='1'"]),
            rng.choice(["", "<ci>x</ci>", "<mws:range/>", "5"]))
    if k == 12:
        return "<mws:qvar name=\"%s\"/>" % rng.choice(
            ["", " ", "&lt;", "a" * 10000, "&#10;", "x y", "\u0301", "%s"])
    if k == 13:
        # one long path of unary nodes ending in many leaves
        d = rng.randint(1, 200)
        return nest("apply", d, "<ci>x</ci>" * min(big, 255))
    if k == 14:
        return "<apply>" + "<ci>%d</ci>" * 0 + "".join(
            "<ci>n%d</ci>" % i for i in range(big)) + "</apply>"
    if k == 15:
        return "<mtext><mws:qvar>x</mws:qvar><mtext>" + "y" * 200 + \
            "</mtext></mtext>"
    if k == 16:
        return "<apply>" + "".join(rng.choice(
            ["<mws:qvar/>", "<mws:qvar>q%d</mws:qvar>" % rng.randrange(80),
             "<mws:range low='%d'/>" % i, "<ci>x</ci>", "<cn>%d</cn>" % i])
            for i in range(min(big, 400))) + "</apply>"
    return "<apply><cn>%s</cn><cn>%s</cn></apply>" % (
        rng.choice(FLOATS), rng.choice(FLOATS))


def extreme_query(rng):
    at = []
    for n in ("answsize", "limitmin", "totalreq", "schema_depth"):
        if rng.random() < .35:
            at.append("%s=%s" % (n, qa(rng.choice(NUMBERS))))
    if rng.random() < .3:
        at.append("cutoff_mode=%s" % qa(rng.choice(["A", "R", "", "x", "AR",
                                                    "\u00e9"])))
    if rng.random() < .5:
        at.append("output=%s" % qa(rng.choice(["xml", "json", "mws-ids", "",
                                               "XML", "jsonp", "%s"])))
    if rng.random() < .2:
        at.append("totalreq=%s" % qa("yes")) if not any(
            a.startswith("totalreq") for a in at) else None
    if rng.random() < .2:
        at.append("junk='%s'" % ("j" * rng.choice([1, 1000])))
    ex = "".join("<mws:expr>%s</mws:expr>" % extreme_term(rng)
                 for _ in range(rng.choice([1, 1, 1, 2, 5, 40])))
    head = rng.choice(["", "", "<?xml version='1.0'?>",
                       "<?xml version='1.0' encoding='latin1'?>",
                       "<!DOCTYPE a>", "<!DOCTYPE mws:query [<!ENTITY e 'x'>"
                       "<!ENTITY f '&e;&e;&e;'>]>",
                       "<!DOCTYPE a SYSTEM 'file:///etc/passwd'>",
                       "<!-- c -->\n"])
    tail = rng.choice(["", "", "", "\n", "<!-- x -->", "</x>"])
    ent = rng.choice(["", "", "", "", "&e;", "&f;", "&amp;", "<ci>&e;</ci>"])
    return ('%s<mws:query xmlns:mws="u" %s>%s%s</mws:query>%s' %
            (head, " ".join(at), ex, ent, tail)).encode("utf-8")
