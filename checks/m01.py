"""M01: arbitrary harvest, document and configuration bytes."""
import json
import os
import random
import re
import shutil
import subprocess
import sys

from vlib import build, core, docs, hostile, http, proc
from vlib.model import *

RULE = ("one evaluation = one run of an instrumented program (or one call of "
        "an instrumented driver) on generated file bytes; non-trivial = the "
        "bytes are not one of the seeds; distinct by program and bytes "
        "(driver runs are counted as reported by the driver, and counted "
        "distinct by the inputs its coverage feedback kept)")

SEP = b"\n@@REQUEST@@\n"
MWS = 'xmlns:mws="http://search.mathweb.org/ns" ' \
      'xmlns:m="http://www.w3.org/1998/Math/MathML"'


# --- inputs ----------------------------------------------------------------
def seeds_harvest(rng, n):
    out = []
    for i in range(n):
        g = Gen(rng, maxdepth=rng.randint(1, 4))
        f = g.file("f.harvest", rng.randint(1, 6))
        out.append(f.to_xml(Style(rng, "mix", rng.choice([0, 1]))).encode())
    return out


def extreme_harvest(rng):
    """Mostly well-formed, with unusual parts."""
    items = []
    for i in range(rng.choice([1, 1, 2, 5, 30])):
        k = rng.random()
        if k < .2:
            items.append("<mws:data %s>%s</mws:data>" % (
                rng.choice(["", "mws:data_id='d'", "mws:data_id=''",
                            "mws:data_id='%s'" % ("i" * 3000),
                            "data_id='d'"]),
                rng.choice(["", "text", "<a b='c'>x</a>", "&lt;", "x" * 70000,
                            hostile.extreme_term(rng), "<mws:data/>",
                            "<mws:expr><ci>q</ci></mws:expr>",
                            "<![CDATA[<a>]]>", hostile.nest("a", rng.choice(
                                [10, 200, 255, 300]), "t")])))
        else:
            items.append("<mws:expr %s>%s</mws:expr>" % (
                rng.choice(["", "url='u'", "url=''", "url='%s'" % ("u" * 5000),
                            "url='a&amp;b' mws:data_id='d'",
                            "mws:data_id='none'", "data_id='d' url='\u00e9'"]),
                "".join(hostile.extreme_term(rng)
                        for _ in range(rng.choice([0, 1, 1, 1, 2, 6])))))
    head = rng.choice(["", "", "", "<?xml version='1.0' encoding='UTF-8'?>",
                       "<?xml version='1.0' encoding='latin1'?>",
                       "<?xml version='1.1'?>",
                       "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY f '&e;&e;'>]>",
                       "<!DOCTYPE a SYSTEM 'a.dtd'>",
                       "<!DOCTYPE a [<!ENTITY x 'y'><!ENTITY z '&z]>", "\ufeff", "\n"])
    ent = rng.choice([""] * 6 + ["&e;", "&f;", "<mws:expr><ci>&f;</ci>"
                                 "</mws:expr>", "stray text"])
    s = "%s<mws:harvest %s>%s%s</mws:harvest>%s" % (
        head, rng.choice([MWS, MWS, ""]), "\n".join(items), ent,
        rng.choice(["", "", "\n", "<x/>", "text"]))
    enc = rng.random()
    if enc < .05:
        return s.encode("utf-16", "replace")
    if enc < .1:
        return s.encode("latin1", "replace")
    return s.encode()


def any_harvest(rng, seeds):
    k = rng.random()
    if k < .04:
        return bytes(rng.randrange(256) for _ in range(
            rng.choice([0, 1, 2, 50, 4000])))
    if k < .08:
        return b"".join(rng.choice(hostile.TOKENS)
                        for _ in range(rng.randrange(80)))
    if k < .45:
        return hostile.mutate(rng, rng.choice(seeds), seeds)
    if k < .8:
        return extreme_harvest(rng)
    return hostile.mutate(rng, extreme_harvest(rng), seeds)


def query_bytes(rng):
    k = rng.random()
    if k < .4:
        return hostile.extreme_query(rng)
    g = Gen(rng, maxdepth=2)
    f = g.file("f", 4)
    roots = [r for e in f.items if isinstance(e, Expr) for r in e.roots]
    q = query_xml(g.query(roots, ranges=.3), None,
                  rng.choice([None, 0, 3, 1000]),
                  rng.choice([None, "xml", "json", "mws-ids"]),
                  Style(rng, "mix", 1)).encode()
    return q if k < .8 else hostile.mutate(rng, q, [q])


def doc_bytes(rng):
    kind = rng.choice(["xhtml", "xml", "html"])
    d = docs.Doc(rng, kind, 0)
    b = d.render()
    return b if isinstance(b, bytes) else b.encode("utf-8", "surrogatepass")


DOC_TOKENS = [b"<math id='m'>", b"</math>", b"<m:math xmlns:m='http://www.w3."
              b"org/1998/Math/MathML' id='x'>", b"<annotation-xml encoding='"
              b"MathML-Content'>", b"</annotation-xml>", b"<ci>x</ci>",
              b" xml:id='a'", b" a:b='c'", b"&nbsp;", b"&undefined;",
              b"<!DOCTYPE html>", b"<!ENTITY e '<a>'>", b"&e;", b"<?php x ?>",
              b"<title>", b"<script>", b"<svg:svg>", b"<a:b:c>", b"<p",
              b"<table><math><tr>", b"\x0c", b"\x01", b"&#x1;", b"&#xD800;",
              b"xmlns:='x'", b"xmlns='http://www.w3.org/1998/Math/MathML'",
              b"<!DOCTYPE a [<!ATTLIST math id CDATA 'dflt'>]>",
              b"<meta charset='latin1'>", b"<base href='x'>"]


def any_doc(rng, seeds):
    k = rng.random()
    if k < .05:
        return bytes(rng.randrange(256) for _ in range(
            rng.choice([0, 1, 2, 50, 4000])))
    if k < .15:
        return b"".join(rng.choice(hostile.TOKENS + DOC_TOKENS)
                        for _ in range(rng.randrange(60)))
    if k < .25:
        n = rng.choice([10, 200, 254, 256, 300, 2000, 20000])
        return ("<html><body>%s</body></html>" % hostile.nest(
            rng.choice(["div", "p", "math id='q'", "annotation-xml "
                        "encoding='MathML-Content'", "b"]).split()[0], n,
            "x")).encode()
    b = bytearray(hostile.mutate(rng, rng.choice(seeds), seeds))
    for _ in range(rng.choice([0, 1, 3])):
        p = rng.randrange(len(b) + 1)
        b[p:p] = rng.choice(DOC_TOKENS)
    return bytes(b)


XPATHS = ["//title", "/", "//*[local-name()='title']", "", "[", "//@id",
          "count(//p)", "'text'", "1 div 0", "//p[last()]", "true()",
          "string(//title)", "//a:b", "$v", "//text()", "id('m')",
          "concat('a', '<b>')", "//node()", "..", "//comment()", "//*", "(",
          "x" * 500, "//namespace::*", "number('x')", "|", "//p|//title"]


def config_bytes(rng):
    v = lambda: rng.choice([rng.choice(XPATHS), True, False, None, 1, -2.5,
                            [], {}, {"a": "//p"}, ["//p"], "\u00e9", "%s",
                            "\0", "x" * 3000])
    x = lambda: rng.choice(XPATHS)
    c = {}
    if rng.random() < .8:
        c["shouldSaveData"] = rng.choice([True, False, v()])
    if rng.random() < .8:
        c["documentIdXpath"] = rng.choice([x(), v()])
    if rng.random() < .8:
        c["textWithMathXpath"] = rng.choice([x(), v()])
    if rng.random() < .8:
        c["metadata"] = v() if rng.random() < .2 else dict(
            (rng.choice(["title", "author", "", "a b", "<x>", "\u00e9", "m:t",
                         "xml", "1a", "m" * 500]), rng.choice([x(), v()]))
            for _ in range(rng.randint(0, 4)))
    b = json.dumps(c if rng.random() < .95 else v(),
                   ensure_ascii=rng.random() < .5).encode()
    return b if rng.random() < .6 else hostile.mutate(rng, b, [b])


def text_of(b):
    return b


# --- in-process, coverage-guided -------------------------------------------
DICT = sorted(set(
    hostile.TOKENS + DOC_TOKENS +
    [x.encode() for x in XPATHS if 0 < len(x) < 40] +
    [b"apply", b"ci", b"cn", b"mtext", b"bvar", b"answsize", b"output=",
     b"'mws-ids'", b"'json'", b"totalreq='yes'", b"limitmin=", b"mws:data_id=",
     b"url=", b"</ci>", b"<cn>1</cn>", b"<ci>x</ci>", SEP, b"</mws:query>",
     b"</mws:harvest>", b"schema_depth="]))


def write_dict(path):
    with open(path, "w") as f:
        for i, t in enumerate(DICT):
            f.write('t%d="%s"\n' % (i, "".join(
                chr(c) if 32 <= c < 127 and c not in (34, 92)
                else "\\x%02X" % c for c in t)))


def seed_corpus(rng, which, path, n):
    os.makedirs(path)
    for i in range(n):
        if which == "search":
            opt = rng.randrange(128)
            if rng.random() < .75:
                opt &= ~0x20   # most inputs stay in memory
            h = rng.choice([seeds_harvest(rng, 1)[0], extreme_harvest(rng)])
            b = bytes([opt]) + h[:12000] + SEP + query_bytes(rng)[:6000]
        else:
            opt = rng.randrange(32)
            b = bytes([opt])
            if opt & 2:
                b += rng.choice(XPATHS).encode()[:200] + b"\n"
            b += doc_bytes(rng)[:16000]
        with open(os.path.join(path, "seed%d" % i), "wb") as f:
            f.write(b)


def fuzz_job(st, item, scratch):
    _, which, seed, runs, secs = item
    rng = random.Random("m01-%s-%s" % (which, seed))
    corpus = os.path.join(scratch, "corpus")
    seed_corpus(rng, which, corpus, core.pick(60, 150))
    d = os.path.join(scratch, "dict")
    write_dict(d)
    art = os.path.join(scratch, "art-")
    stats = os.path.join(scratch, "stats.json")
    env = dict(os.environ)
    env.update({
        "FUZZ_DIR": scratch, "FUZZ_STATS": stats, "LC_ALL": "C",
        "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:"
        "handle_abort=1:strict_string_checks=0:detect_odr_violation=0:"
        "max_malloc_fill_size=65536",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"})
    args = [FUZZ[which], "-seed=%d" % (1 + rng.randrange(1 << 30)),
            "-runs=%d" % runs, "-max_total_time=%d" % secs, "-dict=" + d,
            "-max_len=20000", "-timeout=60", "-rss_limit_mb=3500",
            "-malloc_limit_mb=3500", "-close_fd_mask=3", "-detect_leaks=0",
            "-artifact_prefix=" + art, "-print_final_stats=1",
            "-reload=0", corpus]
    p = subprocess.run(args, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       cwd=scratch, timeout=secs + 300)
    log = p.stderr.decode("utf-8", "replace")
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
    execs = int(m.group(1)) if m else 0
    cov = [int(x) for x in re.findall(r"cov: (\d+)", log)]
    if p.returncode != 0:
        arts = [f for f in sorted(os.listdir(scratch))
                if f.startswith("art-")]
        if not arts:
            raise core.Infra("fuzz driver failed without input: %d\n%s" %
                             (p.returncode, log[-3000:]))
        data = open(os.path.join(scratch, arts[0]), "rb").read()
        again = subprocess.run(
            [FUZZ[which], "-timeout=60", "-rss_limit_mb=3500",
             os.path.join(scratch, arts[0])], env=env,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, cwd=scratch)
        if again.returncode == 0 and (arts[0].startswith("art-timeout") or
                                      arts[0].startswith("art-slow") or
                                      arts[0].startswith("art-oom")):
            raise core.Infra("%s that does not repeat\n%s" %
                             (arts[0], log[-2000:]))
        raise core.Violation(
            "M01 %s driver: %s on %d bytes\n%s" %
            (which, arts[0], len(data),
             again.stderr.decode("utf-8", "replace")[-6000:] or log[-3000:]),
            "", {"input": data, "driver.txt": which})
    kept = sorted(os.listdir(corpus))
    new = [f for f in kept if not f.startswith("seed")]
    for f in new:
        st.seen.add((which, f))
    st.evaluations += execs
    if not st.samples and new:
        st.samples.append({"driver": which, "kept input": repr(open(
            os.path.join(corpus, new[len(new) // 2]), "rb").read()[:200])})
    st.count("driver %s: inputs run" % which, execs)
    st.count("driver %s: inputs kept for new coverage" % which, len(new))
    if cov:
        st.maximum("driver %s: code edges reached" % which, max(cov))
    try:
        for k, v in json.load(open(stats)).items():
            st.count("driver: " + k, v)
    except (OSError, ValueError):
        pass


# --- whole programs --------------------------------------------------------
def write(path, b):
    with open(path, "wb") as f:
        f.write(b)


def ok_exit(r, what, files, codes=(0, 1)):
    proc.check_clean(r, what, files)
    if r.rc not in codes:
        raise core.Violation("%s: exit status %s\n%s" %
                             (what, r.rc, r.describe()), "", files)


GOOD = ('<mws:harvest %s><mws:expr url="good"><apply><zgood/><ci>g</ci>'
        '</apply></mws:expr></mws:harvest>' % MWS).encode()
GOODQ = ('<mws:query xmlns:mws="u" output="json"><mws:expr><apply><zgood/>'
         '<mws:qvar/></apply></mws:expr></mws:query>')


def prog_job(st, item, scratch):
    _, seed, n = item
    rng = random.Random("m01-prog-%s" % seed)
    hs = seeds_harvest(rng, 8)
    ds = [doc_bytes(rng) for _ in range(12)]
    for i in range(n):
        d = os.path.join(scratch, "r%d" % i)
        os.makedirs(d + "/h")
        k = i % 4
        files = {}
        if k in (0, 1):
            # several files, one of them good: bad input is an error of that
            # input alone
            names = ["a.harvest", "b.harvest", "c.harvest"]
            rng.shuffle(names)
            for x in names[:rng.randint(1, 2)]:
                files["h/" + x] = any_harvest(rng, hs)
            files["h/" + names[2]] = GOOD
            for x, b in files.items():
                write(os.path.join(d, x), b)
            opts = (["-c"] if rng.random() < .3 else [])
        if k == 0:
            r = proc.run([BINS["mws-index"], "-I", d + "/h", "-o", d + "/ix"]
                         + opts, scratch)
            ok_exit(r, "M01 mws-index", files, (0,))
            st.count("mws-index runs")
            if rng.random() < .5:
                r = proc.run([BINS["harvests2json"], "-I", d + "/ix", "-H",
                              d + "/h"] + opts, scratch)
                ok_exit(r, "M01 harvests2json", files)
                st.count("harvests2json runs exit %d" % r.rc)
            else:
                serve(st, rng, [BINS["mwsd"], "-D", d + "/ix"] + opts +
                      (["-x"] if rng.random() < .3 else []), scratch, files,
                      "saved index")
        elif k == 1:
            serve(st, rng, [BINS["mwsd"], "-I", d + "/h"] + opts +
                  (["-n"] if rng.random() < .2 else []), scratch, files,
                  "harvests")
        else:
            args = [BINS["docs2harvest"], "-o", d + "/out"]
            if rng.random() < .5:
                files["config.json"] = config_bytes(rng)
                args += ["-c", d + "/config.json"]
            if rng.random() < .3:
                args += ["-x", rng.choice(XPATHS)]
            if rng.random() < .2:
                args += ["-n"]
            for j in range(rng.randint(1, 6)):
                x = "d%d.%s" % (j, rng.choice(["html", "xhtml", "xml"]))
                files[x] = any_doc(rng, ds)
                args.append(os.path.join(d, x))
            files["good.xhtml"] = (
                "<html xmlns='http://www.w3.org/1999/xhtml'><body><math id="
                "'g1' xmlns='http://www.w3.org/1998/Math/MathML'><semantics>"
                "<annotation-xml encoding='MathML-Content'><zgood/>"
                "</annotation-xml></semantics></math></body></html>").encode()
            args.append(d + "/good.xhtml")
            for x, b in files.items():
                write(os.path.join(d, x), b)
            r = proc.run(args, scratch)
            fs = dict(files, **{"args.txt": repr(args)})
            badconf = r.rc == 1 and "config.json" in files
            ok_exit(r, "M01 docs2harvest", fs,
                    (0, 1) if "config.json" in files else (0,))
            st.count("docs2harvest runs exit %d" % r.rc)
            if not badconf:
                outs = os.listdir(d + "/out")
                if len(outs) != 1:
                    raise core.Violation("M01 docs2harvest: %d outputs" %
                                         len(outs), "", fs)
                out = open(os.path.join(d, "out", outs[0]), "rb").read()
                if b"<zgood" not in out:
                    raise core.Violation(
                        "M01 docs2harvest: a good document is lost next to "
                        "bad ones\n" + r.describe(), "", fs)
                st.count("good documents found next to bad ones")
        st.case((k, sorted(files.items())), True,
                {"program": ["mws-index", "mwsd", "docs2harvest",
                             "docs2harvest"][k],
                 "bytes": repr(sorted(files.items())[0][1][:150])})
        shutil.rmtree(d)


def serve(st, rng, args, scratch, files, what):
    port = proc.free_port()
    d = proc.Daemon(args + ["-p", str(port)], scratch, port)
    w = "M01 mwsd over " + what
    try:
        if not d.up:
            rc = d.p.wait()
            if d.report() or rc not in (0, 1):
                raise core.Violation("%s: died while loading\n%s" %
                                     (w, d.describe()), "", files)
            if "MHD_start_daemon" in d.output():
                raise core.Infra("port taken")
            raise core.Violation("%s: does not serve\n%s" %
                                 (w, d.describe()), "", files)
        c = http.Client(port)
        r = http.post(d, c, GOODQ, w, files)
        if r.status != 200 or json.loads(r.body)["total"] < 1:
            raise core.Violation(
                "%s: the formula of a good harvest is not found next to bad "
                "harvests: %d %r\n%s" % (w, r.status, r.body[:500],
                                         d.describe()), "", files)
        st.count("good harvests found next to bad ones")
        for _ in range(3):
            q = query_bytes(rng)
            f = dict(files, query=q)
            http.post(d, c, q, w, f)
            d.check_healthy(w, f)
            st.count("requests over hostile harvests")
        c.close()
        d.finish(w, files)
    finally:
        d.kill()


# --- special files ---------------------------------------------------------
def special_job(st, item, scratch):
    """Things that are not readable regular files, and sizes."""
    rng = random.Random("m01-special-%s" % item[1])
    big = "<mws:expr url='b'><apply>%s</apply></mws:expr>"
    cases = {
        "empty": b"",
        "one byte": b"<",
        "bom": b"\xef\xbb\xbf",
        "header only": ("<mws:harvest %s>" % MWS).encode(),
        "wide": ("<mws:harvest %s>%s</mws:harvest>" % (MWS, "".join(
            big % ("<ci>%d</ci>" % i * w) for i, w in enumerate(
                (254, 255, 256, 257, 1000, 70000))))).encode(),
        "deep": ("<mws:harvest %s><mws:expr>%s</mws:expr></mws:harvest>" % (
            MWS, hostile.nest("apply", 250, "<ci>x</ci>"))).encode(),
        "deeper": ("<mws:harvest %s><mws:expr>%s</mws:expr></mws:harvest>" % (
            MWS, hostile.nest("apply", 100000, "x"))).encode(),
        "long text": ("<mws:harvest %s><mws:expr><ci>%s</ci></mws:expr>"
                      "</mws:harvest>" % (MWS, "y" * 9000000)).encode(),
        "long text over the parser's limit":
            ("<mws:harvest %s><mws:expr><ci>%s</ci></mws:expr>"
             "</mws:harvest>" % (MWS, "y" * 11000000)).encode(),
        "long data": ("<mws:harvest %s><mws:data mws:data_id='d'>%s</mws:data>"
                      "<mws:expr url='u' mws:data_id='d'><ci>x</ci></mws:expr>"
                      "</mws:harvest>" % (MWS, "<p>t</p>" * 400000)).encode(),
        "long name": ("<mws:harvest %s><mws:expr><%s/></mws:expr>"
                      "</mws:harvest>" % (MWS, "n" * 60000)).encode(),
        "many": ("<mws:harvest %s>%s</mws:harvest>" % (MWS, "".join(
            "<mws:expr url='%d'><cn>%d</cn></mws:expr>" % (i, i)
            for i in range(30000)))).encode(),
        "laughs": (b"<!DOCTYPE a [<!ENTITY a 'xxxxxxxxxx'>" + b"".join(
            b"<!ENTITY %c '%s'>" % (98 + i, b"&%c;" % (97 + i) * 10)
            for i in range(9)) + b"]><mws:harvest xmlns:mws='u'><mws:expr>"
            b"<ci>&j;</ci></mws:expr></mws:harvest>"),
        "external": b"<!DOCTYPE a [<!ENTITY x SYSTEM 'file:///etc/passwd'>]>"
                    b"<mws:harvest xmlns:mws='u'><mws:expr><ci>&x;</ci>"
                    b"</mws:expr></mws:harvest>",
        "loop": b"<!DOCTYPE a [<!ENTITY x '&y;'><!ENTITY y '&x;'>]>"
                b"<mws:harvest xmlns:mws='u'><mws:expr><ci>&x;</ci>"
                b"</mws:expr></mws:harvest>",
        # the parser gives up while something is open
        "given up": ("<!DOCTYPE a [<!ENTITY x 'y'><!ENTITY z '<b/>'>]>"
                     "<mws:harvest %s><mws:expr url='u'><ci>&x;</ci>"
                     "</mws:expr><mws:expr><apply>&z;%s</apply></mws:expr>"
                     "</mws:harvest>" % (MWS, hostile.nest("apply", 400))
                     ).encode(),
        "declarations given up":
            b"<!DOCTYPE a [<!ENTITY x 'y'><!ENTITY z '&z]>"
            b"<mws:harvest xmlns:mws='u'><mws:expr url='u'><ci>x</ci>"
            b"</mws:expr></mws:harvest>",
        "data given up": ("<mws:harvest %s><mws:data mws:data_id='d'>%s"
                          "</mws:data></mws:harvest>" % (
                              MWS, hostile.nest("p", 400))).encode(),
        "nul": ("<mws:harvest %s>\0</mws:harvest>" % MWS).encode(),
        "utf16": ("<?xml version='1.0' encoding='UTF-16'?><mws:harvest %s>"
                  "<mws:expr><ci>x</ci></mws:expr></mws:harvest>" %
                  MWS).encode("utf-16"),
        "ucs4": ("<mws:harvest %s/>" % MWS).encode("utf-32"),
        "unknown encoding": b"<?xml version='1.0' encoding='klingon'?><a/>",
    }
    name = item[2]
    b = cases[name]
    d = os.path.join(scratch, "s")
    os.makedirs(d + "/h")
    write(d + "/h/a.harvest", b)
    write(d + "/h/z.harvest", GOOD)
    os.symlink("/nonexistent", d + "/h/dangling.harvest")
    os.makedirs(d + "/h/dir.harvest")
    os.symlink(".", d + "/h/self")
    files = {"h/a.harvest": b[:100000]}
    what = "M01 special file: " + name
    r = proc.run([BINS["mws-index"], "-I", d + "/h", "-o", d + "/ix"],
                 scratch, timeout=300)
    ok_exit(r, what, files, (0,))
    serve(st, rng, [BINS["mwsd"], "-D", d + "/ix"], scratch, files, name)
    serve(st, rng, [BINS["mwsd"], "-I", d + "/h"], scratch, files, name)
    r = proc.run([BINS["harvests2json"], "-I", d + "/ix", "-H", d + "/h"],
                 scratch, timeout=300)
    ok_exit(r, what, files)
    write(d + "/doc.html", b)
    r = proc.run([BINS["docs2harvest"], "-o", d + "/out", d + "/doc.html",
                  d + "/h", d + "/missing", "/dev/null"], scratch,
                 timeout=300)
    ok_exit(r, what, files)
    st.case((name,), True, {"special file": name})
    st.count("special files")


def job(st, item, scratch):
    {"fuzz": fuzz_job, "prog": prog_job, "special": special_job}[item[0]](
        st, item, scratch)


SPECIAL = ["empty", "one byte", "bom", "header only", "wide", "deep",
           "deeper", "long text", "long text over the parser's limit",
           "long data", "long name", "many", "laughs", "external", "loop",
           "given up", "declarations given up", "data given up", "nul",
           "utf16", "ucs4", "unknown encoding"]


def body(ck):
    global BINS, FUZZ
    BINS = build.build("asan", ["mwsd", "mws-index", "docs2harvest",
                                "harvests2json"])
    FUZZ = {}
    for which, like in (("search", "analyze_example"),
                        ("document", "docs2harvest")):
        try:
            FUZZ[which] = build.harness("fuzz", "fuzz_%s.cpp" % which,
                                        [like, "mwsd"], like=like,
                                        extra=["-fsanitize=fuzzer"])
        except build.BuildError as e:
            # the tree's internal interfaces changed; whole programs remain
            sys.stderr.write("[verif] no in-process driver: %s\n" %
                             str(e)[-500:])
            ck.stats.count("driver %s not buildable" % which)
    secs = core.pick(22, 240)
    items = []
    for i in range(core.pick(4, 16)):
        for which in sorted(FUZZ):
            items.append(("fuzz", which, "%d-%d" % (ck.seed, i),
                          core.pick(6000, 200000), secs))
    items += [("special", ck.seed, s) for s in SPECIAL]
    items += [("prog", "%d-%d" % (ck.seed, i), core.pick(40, 150))
              for i in range(core.pick(8, 64))]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("M01", body, rule=RULE, assumptions=[
        "undefined behaviour is what ASan, UBSan (without alignment) and the "
        "checked standard containers report, plus crashes and hangs; a run "
        "may take 60 to 300 s before it counts as a hang"])
