"""H02: the export for search engines agrees with the index."""
import json
import os
import random
import shutil
import subprocess
from xml.sax.saxutils import escape

from checks.i03 import meanings_fn
from vlib import build, core, docs, memsector, proc, search
from vlib.model import *

RULE = ("one evaluation = one data element whose exported lines were "
        "compared with the harvest and with the saved index; non-trivial = "
        "expressions refer to it; distinct by content and formulas")

TEXTS = ["plain", "a&b", "<tag>", "]]>", "\u00e9\u4e2d\U0001d400", "\"q'",
         "back\\slash", "/", "tab\there", "%s%n", "{}", "", "x" * 3000,
         "\u00a0", "\u2028", "\x7f", "math1"]
METAS = ["title", "Author", "year", "x-y", "_z", "a.b", "\u00e9t\u00e9",
         "link", "body", "p"]


def squeeze(s):
    return " ".join(docs_split(s))


def docs_split(s):
    cur = ""
    for c in s + " ":
        if c in " \t\n\v\f\r":
            if cur:
                yield cur
            cur = ""
        else:
            cur += c


class D:
    """A data element as the converter writes it, or odd ones."""

    def __init__(self, rng, n):
        t = lambda: " ".join(rng.choice(TEXTS)
                             for _ in range(rng.randint(0, 4)))
        self.id = "doc%d %s" % (n, t())
        self.text = t()
        self.meta = {}
        self.math = {}
        out = []
        for m in rng.sample(METAS, rng.randint(0, 5)):
            self.meta[m] = t()
        if rng.random() < .05:
            for i in range(rng.choice([12, 20, 40])):
                self.meta["m%d" % i] = t()
        for i in range(rng.randint(0, 4)):
            self.math["%d" % (i + 1)] = "<math id=\"%d\"><mi>%s</mi></math>" \
                % (i, escape(t()))
        esc = lambda s: escape(s)
        ws = lambda: rng.choice(["", "\n", " "])
        kind = rng.random()
        self.odd = kind < .15
        if not self.odd:
            out.append("<id>%s</id>" % esc(self.id))
            out.append("<text>%s</text>" % esc(self.text))
            out.append("<metadata>%s</metadata>" % "".join(
                ws() + "<%s>%s</%s>" % (k, esc(v), k)
                for k, v in self.meta.items()))
            for k, v in self.math.items():
                out.append('<math local_id="%s">%s</math>' % (k, esc(v)))
            if rng.random() < .2:
                out.insert(rng.randrange(len(out)), "<math>no id</math>")
            if rng.random() < .2:
                out.insert(rng.randrange(len(out)), "<other>x</other>")
            self.xml = ws().join(out)
        else:
            self.id = self.text = ""
            self.meta = {}
            self.math = {}
            self.xml = rng.choice(["", " ", "just text", "<x/>", "<x>a</x>b",
                                   "<id/>", "<metadata/>",
                                   "<m:math>x</m:math>", "<a:b/>"])

    def check(self, line1, line2, what, rep):
        def bad(m):
            f = dict(rep)
            f["lines.json"] = line1 + "\n" + line2 + "\n"
            raise core.Violation("%s: %s" % (what, m), "", f)
        try:
            a, b = json.loads(line1), json.loads(line2)
        except ValueError as e:
            bad("a line is not JSON: %s" % e)
        if a != {"index": {"_id": squeeze(self.id)}}:
            bad("index line %r, id is %r" % (a, squeeze(self.id)))
        if b.get("text") != squeeze(self.text):
            bad("text %r, expected %r" % (b.get("text"), squeeze(self.text)))
        want = {k: squeeze(v) for k, v in self.meta.items()}
        if b.get("metadata") != want:
            bad("metadata %r, expected %r" % (b.get("metadata"), want))
        want = {k: squeeze(v) for k, v in self.math.items()}
        if b.get("math") != want:
            bad("math %r, expected %r" % (b.get("math"), want))
        return b


def collection(rng, words):
    """[(HarvestFile, [D in order], {D: exprs})]"""
    g = Gen(rng, words=words)
    out = []
    n = 0
    for i in range(rng.randint(1, 4)):
        items = []
        ds = []
        byid = {}
        refs = {}
        for _ in range(rng.choice([1, 3, 8, 25])):
            k = rng.random()
            if k < .3:
                d = D(rng, n)
                did = rng.choice(["0", "1", "2", "d&3", "x"])
                items.append(Data(did, d.xml))
                byid[did] = d
                ds.append(d)
                refs[d] = []
            else:
                did = rng.choice([None, "0", "1", "2", "d&3", "x", "nope"])
                roots = [g.term() for _ in range(
                    rng.choice([1, 1, 1, 1, 1, 0, 2]))]
                for r in roots:
                    g.pool.extend(s for s in r.subterms()
                                  if rng.random() < .1)
                e = Expr(roots, g.url(n) if rng.random() < .8 else "same",
                         did)
                items.append(e)
                if did in byid:
                    refs[byid[did]].append(e)
            n += 1
        sub = rng.choice(["", "", "", "sub/", "sub/deeper/"])
        hf = HarvestFile("%sf%d.harvest" % (sub, i), items)
        out.append((hf, ds, refs))
    return out


def index_ids(d, what, rep):
    try:
        ms, dic = memsector.find_files(d)
        words = memsector.meanings(dic)
        return {memsector.decode(p, words): fid
                for p, _, fid in memsector.Index(ms).leaves}
    except memsector.Bad as e:
        raise core.Violation("%s: %s" % (what, e), "", rep)


def occurrences(e, ids, rename):
    """{formula id: set of positions} of one expression's subterms."""
    out = {}
    for root in e.roots:
        m = meanings_fn(root, rename) or (lambda t: t.meaning())

        def rec(t, xp):
            k = (m(t), tuple(rec(c, "%s/*[%d]" % (xp, j + 1))
                             for j, c in enumerate(t.kids)))
            if k in ids:
                out.setdefault(ids[k], set()).add(xp)
            return k
        rec(root, "/*[1]")
    return out


def export(idx, hd, scratch, extra, what, rep):
    r = proc.run([BINS["harvests2json"], "-I", idx, "-H", hd] + extra,
                 scratch, timeout=120)
    proc.check_clean(r, what, rep)
    if r.rc != 0:
        raise core.Violation("%s: exit %s\n%s" % (what, r.rc, r.describe()),
                             "", rep)
    return r


def check_file(st, hf, ds, refs, hd, ids, rename, what, rep):
    p = os.path.join(hd, hf.name + ".json")
    if not os.path.exists(p):
        raise core.Violation("%s: %s was not exported" % (what, hf.name), "",
                             rep)
    raw = open(p, "rb").read()
    try:
        txt = raw.decode("utf-8")
    except UnicodeDecodeError as e:
        raise core.Violation("%s: export is not UTF-8: %s" % (what, e), "",
                             dict(rep, export=raw))
    lines = txt.split("\n")
    if lines[-1] != "" or len(lines) != 2 * len(ds) + 1:
        raise core.Violation("%s: %d lines exported for %d data elements" %
                             (what, len(lines) - 1, len(ds)), "",
                             dict(rep, export=raw))
    for i, d in enumerate(ds):
        w = "%s: %s data %d" % (what, hf.name, i)
        b = d.check(lines[2 * i], lines[2 * i + 1], w, rep)
        exp = {}
        for e in refs[d]:
            for fid, pos in occurrences(e, ids, rename).items():
                exp.setdefault(str(fid), {}).setdefault(
                    e.url, set()).update(pos)
        got = b.get("mws_id")
        f = dict(rep)
        f["lines.json"] = lines[2 * i] + "\n" + lines[2 * i + 1] + "\n"
        if sorted(map(str, b.get("mws_ids", []))) != sorted(exp) or \
                sorted(got) != sorted(exp):
            raise core.Violation(
                "%s: formulas %r, the index has %r" %
                (w, sorted(map(str, b.get("mws_ids", []))), sorted(exp)), "",
                f)
        for fid, urls in exp.items():
            if sorted(got[fid]) != sorted(urls):
                raise core.Violation("%s: formula %s at %r, expected %r" %
                                     (w, fid, sorted(got[fid]),
                                      sorted(urls)), "", f)
            for u, pos in urls.items():
                x = got[fid][u].get("xpath")
                if x not in pos:
                    raise core.Violation(
                        "%s: formula %s of %r at %r, it is at %r" %
                        (w, fid, u, x, sorted(pos)), "", f)
                st.count("occurrences compared")
        st.case((lines[2 * i], lines[2 * i + 1]), bool(exp),
                {"data": d.xml[:60], "formulas": len(exp)})


def job(st, item, scratch):
    seed, n = item
    rng = random.Random("h02-%s" % seed)
    for rnd in range(n):
        base = os.path.join(scratch, "r%d" % rnd)
        hd = os.path.join(base, "h")
        rename = rng.random() < .3
        ext = rng.choice(["harvest", "harvest", "mws", "h.x"])
        col = collection(rng, None if not rename else
                         ["x", "y", "z", "P", "p", "xy", "\u03b1", "n"])
        for hf, _, _ in col:
            hf.name = hf.name[:-len("harvest")] + ext
        # an other harvest, part of neither or only of the export
        rec = rng.random() < .6
        texts = search.write_files(hd, [c[0] for c in col],
                                   Style(rng, "mix", rng.choice([0, 1])))
        rep = {"harvest/" + k: v for k, v in texts.items()}
        idx = os.path.join(base, "idx")
        extra = (["-c"] if rename else []) + \
            (["-e", ext] if ext != "harvest" or rng.random() < .5 else []) + \
            (["-r"] if rec else [])
        ihd = hd
        # sometimes the index lacks a file that is exported
        lack = len(col) > 1 and rng.random() < .3
        inside = [c for c in col if rec or "/" not in c[0].name]
        if lack and any(c is not col[0] and [
                i for i in c[0].items if isinstance(i, Expr) and i.roots]
                for c in inside):
            ihd = os.path.join(base, "ih")
            for c in col[1:]:
                q = os.path.join(ihd, c[0].name)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copy(os.path.join(hd, c[0].name), q)
        if not any(isinstance(i, Expr) and i.roots for c in inside
                   for i in c[0].items):
            continue
        what = "H02 " + " ".join(extra)
        rep["options.txt"] = what
        search.build_index(BINS, scratch, idx, [ihd], extra,
                           what + " index build", rep)
        ids = index_ids(idx, what, rep)
        # things that must be left alone
        os.makedirs(hd, exist_ok=True)
        with open(os.path.join(hd, "notes.txt"), "w") as f:
            f.write("x")
        with open(os.path.join(hd, ".hidden." + ext), "w") as f:
            f.write("x")
        os.symlink("nowhere", os.path.join(hd, "link." + ext))
        done = None
        if inside and rng.random() < .4:
            done = rng.choice(inside)
            with open(os.path.join(hd, done[0].name + ".json"), "w") as f:
                f.write("kept")
        export(idx, hd, scratch, extra, what, rep)
        allowed = {c[0].name + ".json" for c in inside}
        have = set()
        for dp, _, fs in os.walk(hd):
            for f in fs:
                if f.endswith(".json"):
                    have.add(os.path.relpath(os.path.join(dp, f), hd))
        if have != allowed:
            raise core.Violation("%s: exports %r, expected %r" %
                                 (what, sorted(have), sorted(allowed)), "",
                                 rep)
        for c in inside:
            if c is done:
                if open(os.path.join(hd, c[0].name + ".json")).read() != \
                        "kept":
                    raise core.Violation("%s: an earlier export was "
                                         "overwritten" % what, "", rep)
                st.count("earlier exports left alone")
            else:
                check_file(st, *c, hd, ids, rename, what, rep)
        if rnd % 5 == 0:
            # again: nothing changes, and a removed export is written again
            again = [c for c in inside if c is not done]
            if again:
                c = rng.choice(again)
                p = os.path.join(hd, c[0].name + ".json")
                b = open(p, "rb").read()
                os.unlink(p)
                export(idx, hd, scratch, extra, what + " again", rep)
                if open(p, "rb").read() != b:
                    raise core.Violation("%s: exporting again differs" % what,
                                         "", rep)
                st.count("exported again")
        if rnd % 5 == 1:
            asked(st, scratch, idx, col, ids, rename, what, rep, rng)
        shutil.rmtree(base)


def asked(st, scratch, idx, col, ids, rename, what, rep, rng):
    """The identifiers are those the daemon reports."""
    if rename:
        return
    d = search.start(BINS, scratch, ["-D", idx], what, rep)
    try:
        ask = search.Asker(d, what, rep)
        terms = [s for c in col for i in c[0].items if isinstance(i, Expr)
                 for r in i.roots for s in r.subterms()]
        rng.shuffle(terms)
        for t in terms[:8]:
            a = ask.ids(t)
            exp = [ids[t.key()]] if t.key() in ids else []
            if sorted(map(int, a.ids)) != exp:
                raise core.Violation("%s: the daemon reports ids %r, the "
                                     "index holds %r" % (what, a.ids, exp),
                                     "", ask.ctx(a.query))
            st.count("identifiers compared with the daemon")
        ask.close()
        d.finish(what, rep)
    finally:
        d.kill()


def converted_job(st, item, scratch):
    """Convert documents, index the harvest, export it."""
    rng = random.Random("h02c-%s" % (item,))
    for rnd in range(core.pick(6, 20)):
        base = os.path.join(scratch, "c%d" % rnd)
        hd = os.path.join(base, "h")
        os.makedirs(hd)
        ds = []
        for i in range(rng.randint(1, 5)):
            d = docs.Doc(rng, rng.choice(["xhtml", "xml", "html"]), i)
            ds.append(d)
            with open(os.path.join(base, "d%d" % i), "w",
                      encoding="utf-8") as f:
                f.write(d.render())
        cfg = os.path.join(base, "c.json")
        with open(cfg, "w") as f:
            json.dump({"shouldSaveData": True, "textWithMathXpath": "/",
                       "documentIdXpath": "", "metadata": {
                           "Title": "//*[local-name()='title']"}}, f)
        what = "H02 converted"
        r = proc.run([BINS["docs2harvest"], "-o", hd, "-c", cfg] +
                     ["d%d" % i for i in range(len(ds))], scratch, cwd=base)
        proc.check_clean(r, what)
        hv = os.listdir(hd)
        rep = {hv[0]: open(os.path.join(hd, hv[0]), "rb").read()}
        if not any(d.exported() for d in ds):
            continue
        idx = os.path.join(base, "idx")
        search.build_index(BINS, scratch, idx, [hd], (), what, rep)
        ids = index_ids(idx, what, rep)
        export(idx, hd, scratch, [], what, rep)
        lines = open(os.path.join(hd, hv[0] + ".json"),
                     encoding="utf-8").read().split("\n")
        if len(lines) != 2 * len(ds) + 1:
            raise core.Violation("%s: %d lines for %d documents" %
                                 (what, len(lines), len(ds)), "", rep)
        for i, d in enumerate(ds):
            try:
                a = json.loads(lines[2 * i])
                b = json.loads(lines[2 * i + 1])
            except ValueError as e:
                raise core.Violation("%s: %s" % (what, e), "", rep)
            ex = d.exported()
            if a["index"]["_id"] != "d%d" % i or \
                    b["metadata"] != {"Title": squeeze(d.title)}:
                raise core.Violation(
                    "%s: document %d exported as %r %r" %
                    (what, i, a, b["metadata"]), "", rep)
            if len(b["math"]) != len(ex):
                raise core.Violation("%s: document %d has %d math elements, "
                                     "expected %d" % (what, i, len(b["math"]),
                                                      len(ex)), "", rep)
            exp = set()
            for m in ex:
                t = _term(docs.canon(m.content))
                for s in t.subterms():
                    if s.key() not in ids:
                        raise core.Violation(
                            "%s: subterm %r of document %d is not indexed" %
                            (what, s.key(), i), "", rep)
                    exp.add(ids[s.key()])
            if set(b["mws_ids"]) != exp:
                raise core.Violation(
                    "%s: document %d has formulas %r, expected %r" %
                    (what, i, sorted(b["mws_ids"]), sorted(exp)), "", rep)
            st.case(("converted", lines[2 * i + 1]), bool(exp))
            st.count("converted documents exported")
        shutil.rmtree(base)


def _term(c):
    return T(c[0], "".join(i for i in c[2] if isinstance(i, str)),
             [_term(i) for i in c[2] if not isinstance(i, str)])


def vocab_job(st, item, scratch):
    """More formulas than two bytes number, below directories with long
    names."""
    rng = random.Random("h02v-%s" % item)
    hd = os.path.join(scratch, "h")
    n = 70000
    words = ["v%d" % i for i in range(n)]
    rng.shuffle(words)
    exprs = [Expr([T("apply", "", [T("ci", w) for w in words[j:j + 100]])],
                  "u%d" % j) for j in range(0, n, 100)]
    deep = "/".join(["l" * 100 + "-%d" % i for i in range(rng.choice([3, 9]))])
    d = D(rng, 1)
    mine = exprs[-3:] + exprs[:2]
    rng.shuffle(mine)
    mine = [Expr([r.clone() for r in e.roots], "in%d" % i, "0")
            for i, e in enumerate(mine)]
    col = [(HarvestFile("a.harvest", exprs[:300]), [], {}),
           (HarvestFile(deep + "/b.harvest", exprs[300:]), [], {}),
           (HarvestFile(deep + "/c.harvest", [Data("0", d.xml)] + mine), [d],
            {d: mine})]
    search.write_files(hd, [c[0] for c in col], Style(rng, "mix"))
    what = "H02 vocabulary"
    idx = os.path.join(scratch, "idx")
    search.build_index(BINS, scratch, idx, [hd], ["-r"], what, {})
    ids = index_ids(idx, what, {})
    export(idx, hd, scratch, ["-r"], what, {})
    for c in col:
        check_file(st, *c, hd, ids, False, what, {})
    st.maximum("formula identifiers", max(ids.values()))
    st.maximum("length of a path", len(deep))
    shutil.rmtree(hd)
    shutil.rmtree(idx)


def faults_job(st, item, scratch):
    """Unwritable and unreadable places are errors of themselves alone."""
    rng = random.Random("h02f-%s" % (item,))
    col = collection(rng, None)
    while len(col) < 3 or any(not any(isinstance(i, Expr) and i.roots
                                      for i in c[0].items) for c in col):
        col = collection(rng, None)
    for i, c in enumerate(col):
        c[0].name = "f%d.harvest" % i
    hd = os.path.join(scratch, "h")
    search.write_files(hd, [c[0] for c in col], Style(rng, "m"))
    idx = os.path.join(scratch, "idx")
    search.build_index(BINS, scratch, idx, [hd], (), "H02 faults")
    ids = index_ids(idx, "H02 faults", {})

    def runs(args, name, ok, **kw):
        r = proc.run([BINS["harvests2json"]] + args, scratch, **kw)
        proc.check_clean(r, "H02 " + name)
        if (r.rc == 0) != ok:
            raise core.Violation("H02 %s: exit %s\n%s" % (name, r.rc,
                                                          r.describe()))
        st.case(("fault", name), True)
    runs([], "no options", False)
    runs(["-I", idx], "no harvests", False)
    runs(["-I", idx, "-H", hd + "/none"], "no such directory", False)
    runs(["-I", hd, "-H", hd], "no index", False)
    # a malformed harvest: what precedes the error is exported, the rest of
    # the files too
    with open(os.path.join(hd, "bad.harvest"), "w") as f:
        f.write("<mws:harvest><mws:data mws:data_id='1'><id>q</id></mws:data>"
                "<mws:expr")
    with open(os.path.join(hd, "empty.harvest"), "w") as f:
        f.write("")
    # a harvest the exporter may not read (as an unprivileged user)
    os.chmod(os.path.join(hd, col[1][0].name), 0)
    for dp, dn, fn in os.walk(scratch):
        os.chmod(dp, 0o777)
        for f in fn:
            p = os.path.join(dp, f)
            if os.stat(p).st_mode & 0o777:
                os.chmod(p, 0o666)

    def nobody():
        os.setgid(65534)
        os.setuid(65534)
    runs(["-I", idx, "-H", hd], "unreadable harvest", True, preexec=nobody)
    if os.path.exists(os.path.join(hd, col[1][0].name + ".json")):
        raise core.Violation("H02: an unreadable harvest was exported")
    for c in col[:1] + col[2:]:
        check_file(st, *c, hd, ids, False, "H02 unreadable harvest", {})
    # then readable: now it is exported
    os.chmod(os.path.join(hd, col[1][0].name), 0o644)
    runs(["-I", idx, "-H", hd], "second run", True)
    check_file(st, *col[1], hd, ids, False, "H02 second run", {})
    most = 0
    for c in col:
        p = os.path.join(hd, c[0].name + ".json")
        most = max(most, os.path.getsize(p))
        os.unlink(p)

    def limit():
        import resource
        import signal
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE,
                           (min(300, most // 2),) * 2)
    if most > 1:
        runs(["-I", idx, "-H", hd], "file size limit", False, preexec=limit)
    runs(["-I", idx, "-H", hd], "after the limit", True)
    for c in col:
        check_file(st, *c, hd, ids, False, "H02 after the limit", {})


def special_job(st, item, scratch):
    item[0](st, item[1], scratch)


def body(ck):
    global BINS
    BINS = build.build("asan", ["harvests2json", "mws-index", "mwsd",
                                "docs2harvest"])
    ck.parallel(special_job, [(faults_job, ck.seed),
                              (faults_job, ck.seed + 1)] +
                [(vocab_job, ck.seed + i) for i in range(core.pick(1, 6))])
    ck.parallel(converted_job, ["%d-%d" % (ck.seed, i)
                                for i in range(core.pick(8, 60))])
    ck.parallel(job, [("%d-%d" % (ck.seed, i), core.pick(25, 100))
                      for i in range(core.pick(16, 120))])


if __name__ == "__main__":
    core.main("H02", body, rule=RULE, assumptions=[
        "one position per formula and url is exported: which of several is "
        "not specified",
        "index and export are made with the same renaming option"])
