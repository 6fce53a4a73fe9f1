"""H01: document conversion extracts every identified formula."""
import glob
import json
import os
import random
import re
import xml.etree.ElementTree as ET

from vlib import build, core, docs, proc, search
from vlib.model import *

RULE = ("one evaluation = one document converted by the instrumented "
        "converter and its part of the harvest compared, formula by formula, "
        "with the formulas, text and metadata the document was generated "
        "from; non-trivial = the document holds an identified content "
        "formula; distinct by document and options")

MW = "{http://search.mathweb.org/ns}"
NAMES = ["d.xhtml", "a&b.xml", "x<y>.html", "sp ace.html", "\u00e9.xhtml",
         "q\"uo'te.xml", "sub/in.html", "plain.html", "50%s.xml", "#h.html",
         "c\x01d.html", "u\ufffe\uffff.xml", "b\udcff\udce4.xhtml"]


def said(name):
    """A file name without what XML has no way to say."""
    return re.sub("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]",
                  "", name)


def to_term(c):
    """(name, attrs, items) -> T"""
    return T(c[0], "".join(i for i in c[2] if isinstance(i, str)),
             [to_term(i) for i in c[2] if not isinstance(i, str)])


def convert(scratch, args, what, rep, cwd):
    od = os.path.join(scratch, "out")
    before = set(os.listdir(od)) if os.path.isdir(od) else set()
    r = proc.run([BINS["docs2harvest"], "-o", od] + args, scratch,
                 timeout=120, cwd=cwd, leaks=False)
    proc.check_clean(r, what, rep)
    if r.rc != 0:
        raise core.Violation("%s: exit %s\n%s" % (what, r.rc, r.describe()),
                             "", rep)
    new = sorted(set(os.listdir(od)) - before)
    if len(new) != 1 or not new[0].endswith(".harvest"):
        raise core.Violation("%s: wrote %r instead of one harvest" %
                             (what, new), "", rep)
    b = open(os.path.join(od, new[0]), "rb").read()
    rep = dict(rep)
    rep["output.harvest"] = b
    try:
        root = ET.fromstring(b)
    except ET.ParseError as e:
        raise core.Violation("%s: the harvest is not well-formed: %s" %
                             (what, e), "", rep)
    if root.tag != MW + "harvest":
        raise core.Violation("%s: root is %s" % (what, root.tag), "", rep)
    return root, rep


def split(root, what, rep):
    """[(data element or None, [expr elements])] by document."""
    groups = []
    for x in root:
        if x.tag == MW + "data":
            groups.append((x, []))
        elif x.tag == MW + "expr":
            if not groups or (groups[-1][0] is None) != \
                    (x.get(MW + "data_id") is None):
                groups.append((None, []))
            groups[-1][1].append(x)
        else:
            raise core.Violation("%s: unexpected element %s" % (what, x.tag),
                                 "", rep)
    return groups


def compare_expr(x, m, what, rep):
    kids = list(x)
    if len(kids) != 1 or (x.text or "").strip() or (kids[0].tail or
                                                    "").strip():
        raise core.Violation("%s: expression of #%s is not one element" %
                             (what, m.id), "", rep)
    got, exp = docs.canon_et(kids[0], False), docs.canon(m.content)
    if got != exp:
        raise core.Violation(
            "%s: content of math #%s changed\nexpected %r\ngot      %r" %
            (what, m.id, exp, got), "", rep)


def check_doc(d, did, data, exprs, cfg, what, rep):
    """One document with data."""
    def bad(msg):
        raise core.Violation("%s: %s" % (what, msg), "", rep)
    ident = data.get(MW + "data_id")
    if not ident:
        bad("data without identifier")
    kids = list(data)
    tags = [k.tag for k in kids]
    if tags[:3] != ["id", "text", "metadata"] or \
            any(t != "math" for t in tags[3:]):
        bad("data holds %r" % tags)
    if (kids[0].text or "") != did:
        bad("id %r, expected %r" % (kids[0].text, did))
    maths = d.exported()
    locs = {}
    for k, m in zip(kids[3:], maths):
        n = k.get("local_id")
        if not n or n in locs.values():
            bad("local id %r of math #%s is not its own" % (n, m.id))
        locs[m.id] = n
        if d.kind != "html" and not d.entities:
            try:
                mx = ET.fromstring('<r xmlns:xlink="X">%s</r>' % k.text)[0]
            except (ET.ParseError, IndexError):
                bad("the recorded math element #%s is not XML" % m.id)
            if docs.canon_et(mx) != docs.canon(m.e, True):
                bad("math element #%s changed\nexpected %r\ngot      %r" %
                    (m.id, docs.canon(m.e, True), docs.canon_et(mx)))
    if len(kids) - 3 != len(maths):
        bad("%d math elements recorded, the document has %d with id and "
            "content" % (len(kids) - 3, len(maths)))
    # text
    text = (kids[1].text or "")
    toks = [t for t in _split(text)]
    items = {"/": None, "main": d.main}[cfg["text"]]
    seen = {}

    def number(mid):
        return locs.get(mid, "?" + mid)
    exp = d.tokens(items, number) if items is not None else \
        d.tokens([d.title], number) + d.tokens(d.items, number)
    if len(toks) != len(exp):
        bad("text has %d tokens, expected %d\n%r\n%r" % (
            len(toks), len(exp), toks, exp))
    for a, b in zip(toks, exp):
        if b.startswith("math?"):
            # identified but without content: its own number
            if not a.startswith("math") or not a[4:].isdigit() or \
                    a[4:] in locs.values():
                bad("placeholder %r for math #%s" % (a, b[5:]))
            if seen.setdefault(a, b) != b:
                bad("placeholder %r twice" % a)
        elif a != b:
            bad("text token %r, expected %r" % (a, b))
    # metadata
    got = [(k.tag, " ".join(_split(k.text or ""))) for k in kids[2]]
    want = []
    for name, xp, val in cfg["metadata"]:
        v = val(d)
        want.append((name, " ".join(_split(v))))
    if got != want:
        bad("metadata %r, expected %r" % (got, want))
    # expressions
    if len(exprs) != len(maths):
        bad("%d expressions, expected %d" % (len(exprs), len(maths)))
    for x, m in zip(exprs, maths):
        if x.get(MW + "data_id") != ident:
            bad("expression of #%s refers to data %r, not %r" %
                (m.id, x.get(MW + "data_id"), ident))
        if x.get("url") != locs[m.id]:
            bad("expression of #%s has url %r, its math element %r" %
                (m.id, x.get("url"), locs[m.id]))
        compare_expr(x, m, what, rep)
    return ident


def _split(s):
    cur = ""
    for c in s + " ":
        if c in " \t\n\v\f\r":
            if cur:
                yield cur
            cur = ""
        else:
            cur += c


TITLE = "//*[local-name()='title']"
META = [("title", TITLE, lambda d: d.title),
        ("author", "//*[@name='author']/@content", lambda d: d.author),
        ("Author-2", "//*[local-name()='meta'][@name='author']/@content",
         lambda d: d.author),
        ("none", "//nothing", lambda d: ""),
        ("_x.y", "/*/*[1]/*[99]", lambda d: "")]
BADMETA = [("a b", TITLE), ("1st", TITLE), ("<x>", TITLE), ("", TITLE),
           ("a:b", TITLE)]


def job(st, item, scratch):
    seed, n = item
    rng = random.Random("h01-%s" % seed)
    for rnd in range(n):
        base = os.path.join(scratch, "r%d" % rnd)
        os.makedirs(os.path.join(base, "sub"))
        ds, paths, bad = [], [], 0
        names = rng.sample(NAMES, rng.randint(1, 6))
        if rnd == 7:
            # more documents than a byte counts
            names += ["many%d.xhtml" % i for i in range(260)]
        rep = {}
        absolute = rng.random() < .3
        for i, nm in enumerate(names):
            p = os.path.join(base, nm) if absolute else nm
            k = rng.random()
            full = os.path.join(base, nm)
            if k < .1:
                paths.append(p)
                if k < .05:
                    os.mkdir(full)
                ds.append(None)
                bad += 1
                continue
            d = docs.Doc(rng, rng.choice(["xhtml", "xml", "html"]), i)
            x, b = d.written()
            with open(full, "wb") as f:
                f.write(b)
            if b != x.encode("utf-8"):
                st.count("documents in other encodings")
            rep["doc%d-%s" % (i, said(os.path.basename(nm)))] = b
            paths.append(p)
            ds.append(d)
        nodata = rng.random() < .3
        cfg = {"text": "/", "metadata": []}
        args = []
        didx = None
        cnf = None
        if rng.random() < .7:
            cnf = {"shouldSaveData": True if not nodata or rng.random() < .5
                   else False, "textWithMathXpath": "/",
                   "documentIdXpath": ""}
            if rng.random() < .4:
                cnf["textWithMathXpath"] = "//*[@class='main']"
                cfg["text"] = "main"
            if rng.random() < .3:
                didx = cnf["documentIdXpath"] = TITLE
            cfg["metadata"] = rng.sample(META, rng.randint(0, len(META)))
            cnf["metadata"] = {}
            for nme, xp, _ in cfg["metadata"]:
                cnf["metadata"][nme] = xp
                if rng.random() < .15:
                    b = rng.choice(BADMETA)
                    cnf["metadata"][b[0]] = b[1]
            cp = os.path.join(base, "cfg.json")
            with open(cp, "w") as f:
                json.dump(cnf, f)
            rep["cfg.json"] = json.dumps(cnf)
            args += ["-c", cp]
        if rng.random() < .2:
            didx = "//*[@name='author']/@content"
            args += ["-x", didx]
        if nodata and (cnf is None or cnf["shouldSaveData"]):
            args.append("-n")
        what = "H01 %s" % said(" ".join(args + paths[:12] +
                                        ["..."][:len(paths) > 12]))
        root, rep = convert(scratch, args + paths, what, rep, base)

        def did(i):
            if didx is None:
                return said(paths[i])
            return " ".join(_split(ds[i].title if didx == TITLE
                                   else ds[i].author))
        good = [i for i, d in enumerate(ds) if d is not None]
        if not nodata:
            groups = split(root, what, rep)
            if any(g[0] is None for g in groups) or \
                    len(groups) != len(good):
                raise core.Violation(
                    "%s: %d documents converted, expected %d" %
                    (what, len(groups), len(good)), "", rep)
            ids = set()
            for i, (data, ex) in zip(good, groups):
                w = "%s: %s" % (what, said(paths[i]))
                ident = check_doc(ds[i], did(i), data, ex, cfg, w, rep)
                if ident in ids:
                    raise core.Violation(w + ": shares its data id", "", rep)
                ids.add(ident)
        else:
            exp = [(did(i) + "#" + m.id, m) for i in good
                   for m in ds[i].exported()]
            got = list(root)
            if len(got) != len(exp):
                raise core.Violation("%s: %d expressions, expected %d" %
                                     (what, len(got), len(exp)), "", rep)
            for x, (url, m) in zip(got, exp):
                if x.tag != MW + "expr" or x.get("url") != url or \
                        x.get(MW + "data_id") is not None:
                    raise core.Violation(
                        "%s: expression %r, expected url %r without data" %
                        (what, (x.tag, x.attrib), url), "", rep)
                compare_expr(x, m, what, rep)
        if rnd % 6 == 5:
            searched(st, scratch, root, ds, good, nodata, did, what, rep)
        for f in glob.glob(os.path.join(scratch, "out", "*")):
            os.unlink(f)
        for i in good:
            ex = ds[i].exported()
            st.case((rep.get("cfg.json"), nodata, ds[i].render()),
                    bool(ex), {"kind": ds[i].kind, "formulas": len(ex),
                               "options": args[:4]})
            st.count("formulas compared", len(ex))
            st.count("math elements skipped", len(ds[i].maths) - len(ex))
            st.count(ds[i].kind + " documents")
        st.count("unreadable documents", bad)


def searched(st, scratch, root, ds, good, nodata, did, what, rep):
    """The daemon finds each formula at its url."""
    ref = Index()
    want = []
    exprs = [x for x in root if x.tag == MW + "expr"]
    ms = [m for i in good for m in ds[i].exported()]
    for x, m in zip(exprs, ms):
        t = to_term(docs.canon(m.content))
        ref.add_expr(t, x.get("url"), "")
        want.append((x.get("url"), t))
    d = search.start(BINS, scratch, ["-I", os.path.join(scratch, "out"),
                                     "-n"], what, rep)
    try:
        ask = search.Asker(d, what, rep)
        for url, t in want[:12]:
            a = ask.xml(t)
            got = sorted((x.uri, x.xpath) for x in a.answers)
            exp = sorted(h[:2] for h in ref.search(t))
            if got != exp:
                raise core.Violation(
                    "%s: searching a converted formula\n%s" %
                    (what, search.diff(exp, got)), "", ask.ctx(a.query))
            st.count("formulas searched for")
        ask.close()
        d.finish(what, rep)
    finally:
        d.kill()


def options_job(st, item, scratch):
    """Faults: nothing may crash, errors are errors."""
    rng = random.Random("h01o-%s" % (item,))
    d = docs.Doc(rng, "xhtml", 0)
    p = os.path.join(scratch, "a.xhtml")
    with open(p, "w", encoding="utf-8") as f:
        f.write(d.render())
    f = os.path.join(scratch, "file")
    open(f, "w").close()

    def bad(name, args, **kw):
        before = sorted(os.listdir(scratch))
        r = proc.run([BINS["docs2harvest"]] + args, scratch, **kw)
        what = "H01 " + name
        proc.check_clean(r, what)
        if r.rc == 0:
            raise core.Violation("%s: exit status 0\n%s" % (what,
                                                            r.describe()))
        st.case(("fault", name), True)

    bad("no documents", [])
    bad("output directory is a file", ["-o", f, p])
    bad("output directory cannot be made", ["-o", f + "/x/y", p])
    bad("missing configuration", ["-c", f + ".none", p])
    for i, t in enumerate(["", "{", "nonsense", "{\"metadata\":", "[1"]):
        c = os.path.join(scratch, "c.json")
        with open(c, "w") as fh:
            fh.write(t)
        bad("configuration %r" % t, ["-c", c, p])
    od = os.path.join(scratch, "o2")
    os.mkdir(od)

    def limit():
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (200, 200))
    many = [p] * 40
    # the sanitizer's report file is under the limit too: its absence and
    # the exit status are what is looked at
    bad("file size limit", ["-o", od] + many, preexec=limit)
    for t in ["[]", "3", "null", "{\"metadata\":[]}", "{\"metadata\":3}",
              "{\"metadata\":{\"t\":4}}", "{\"metadata\":{\"t\":null}}",
              "{\"metadata\":{\"t\":\"//[\"}}", "{\"metadata\":null}",
              "{\"metadata\":{\"t\":\"//namespace::*\"}}",
              "{\"metadata\":{\"t\":\"count(//*)\"}}",
              "{\"shouldSaveData\":true,\"textWithMathXpath\":"
              "\"//namespace::*\"}",
              "{\"shouldSaveData\":true,\"textWithMathXpath\":\"1+1\","
              "\"documentIdXpath\":\"string(/)\"}",
              "{\"shouldSaveData\":3,\"textWithMathXpath\":[],"
              "\"documentIdXpath\":{}}"]:
        c = os.path.join(scratch, "c.json")
        with open(c, "w") as fh:
            fh.write(t)
        r = proc.run([BINS["docs2harvest"], "-o", od, "-c", c, p, p], scratch)
        proc.check_clean(r, "H01 configuration %s" % t, {"c.json": t})
        if r.rc == 0:
            new = max(glob.glob(od + "/*"), key=os.path.getmtime)
            try:
                ET.parse(new)
            except ET.ParseError as e:
                raise core.Violation(
                    "H01 configuration %s: harvest not well-formed: %s" %
                    (t, e), "", {"c.json": t})
        st.case(("configuration", t), True)


def body(ck):
    global BINS
    BINS = build.build("asan", ["docs2harvest", "mwsd"])
    ck.parallel(options_job, [ck.seed])
    ck.parallel(job, [("%d-%d" % (ck.seed, i), core.pick(30, 150))
                      for i in range(core.pick(40, 160))])


if __name__ == "__main__":
    core.main("H01", body, rule=RULE, assumptions=[
        "documents are in the encoding they declare, identifiers of math elements are unique within "
        "a document; text inside CDATA sections and entities is not compared",
        "the copy of the whole math element kept in the data is not compared "
        "for HTML documents and documents with entities"])
