"""I01: exactly the requested harvest files are indexed."""
import os
import random
import resource
import shutil
import socket
import subprocess

from vlib import build, core, proc, search
from vlib.model import *

RULE = ("one evaluation = one entry of a generated directory tree whose "
        "unique expression was searched for after indexing; non-trivial = "
        "every entry; distinct by (kind, depth, name class, expected)")

JUNK = [("empty", b""), ("binary", bytes(range(256)) * 4),
        ("truncated", b"<?xml version='1.0'?><mws:harvest xmlns:mws='x'><mws:"
         b"expr url='junk'><ci>ju"),
        ("nonharvest", b"<html><mws:expr url='junk'><ci>junk</ci></mws:expr>"
         b"</html>"),
        ("malformed", b"<mws:harvest></mws:expr></mws:harvest>"),
        ("entity", b"<mws:harvest>&undefined;<mws:expr url='junk'><ci>junk"
         b"</ci></mws:expr></mws:harvest>"),
        ("blank", b"\n\n   \n"),
        ("latin1", "<mws:harvest><x>\u00e9</x></mws:harvest>".encode(
            "latin-1")),
        ("nul", b"<mws:harvest>\0</mws:harvest>")]


class Tree:
    def __init__(self, rng, ext, recurse, unpriv):
        self.rng = rng
        self.ext = ext
        self.recurse = recurse
        self.unpriv = unpriv
        self.n = 0
        self.names_made = 0
        self.entries = []       # (id, kind, depth, expected, class)
        self.modes = []         # paths to chmod 000 at the end

    def good(self, path, expected, kind, depth, cls):
        self.n += 1
        i = "e%d" % self.n
        f = HarvestFile("x", [Expr([T("apply", "", [
            T("csymbol", i), T("cn", "1")])], i)])
        with open(path, "x") as fo:
            fo.write(f.to_xml())
        self.entries.append((i, kind, depth, expected, cls))

    def names(self):
        r = self.rng
        e = self.ext
        k = r.randrange(14)
        base = r.choice(["a", "B c", "\u00fc", "x.y", "-dash", "l" * 100, "l" * 200,
                         "q'\"", "#", "%s"]) + str(self.names_made)
        self.names_made += 1
        if k < 5:
            return base + "." + e, e and not base.startswith("."), "ext"
        if k == 5:
            return base + e, True, "suffix"
        if k == 6:
            return "." + base + "." + e, False, "hidden"
        if k == 7:
            return base + "." + e + ".bak", e == "", "bak"
        if k == 8:
            n = base + "." + e.upper()
            return n, n.endswith(e), "case"
        if k == 9:
            n = base + "." + e[:-1]
            return n, n.endswith(e), "cut"
        if k == 10:
            return base + ".txt", e == "", "other"
        if k == 11:
            return base + "." + e + "~", e == "", "backup"
        if k == 12:
            return base, e == "", "noext"
        return base + "." + e, True, "ext"

    def fill(self, d, depth, reach):
        r = self.rng
        for _ in range(r.randint(2, 7)):
            name, ok, cls = self.names()
            ok = bool(ok) or name.endswith(self.ext) and \
                not name.startswith(".")
            p = os.path.join(d, name)
            k = r.random()
            if k < .55:
                self.good(p, ok and reach, "regular", depth, cls)
            elif k < .7:
                nm, data = r.choice(JUNK)
                with open(p, "wb") as f:
                    f.write(data)
                self.entries.append(("junk", nm, depth, False, cls))
            elif k < .76 :
                # link to a good file outside the tree
                os.symlink(self.outside, p)
                self.entries.append(("linked", "symlink", depth, False, cls))
            elif k < .79:
                os.mkfifo(p)
                self.entries.append(("none", "fifo", depth, False, cls))
            elif k < .82 and len(p) < 100:
                s = socket.socket(socket.AF_UNIX)
                s.bind(p)
                s.close()
                self.entries.append(("none", "socket", depth, False, cls))
            elif k < .85:
                os.symlink("/nonexistent/x", p)
                self.entries.append(("none", "dangling", depth, False, cls))
            elif self.unpriv and k < .93:
                self.good(p, False, "unreadable", depth, cls)
                self.modes.append(p)
            else:
                self.good(p, ok and reach, "regular", depth, cls)
        if depth < 3:
            for j in range(r.randint(0, 3)):
                nm = r.choice(["sub", "a b", "Z", "0", "d." + self.ext,
                               "\u00e9"]) + str(j)
                hid = r.random() < .15
                if hid:
                    nm = "." + nm
                if r.random() < .2:
                    nm = nm + "." + self.ext
                p = os.path.join(d, nm)
                if os.path.lexists(p):
                    continue
                os.mkdir(p)
                blocked = self.unpriv and r.random() < .25
                self.fill(p, depth + 1, reach and self.recurse and
                          not hid and not blocked)
                if blocked:
                    self.modes.append(p)
                    self.entries.append(("none", "unreadable dir", depth + 1,
                                         False, "dir"))
            if depth == 0 and r.random() < .3:
                # deep below long names
                n = r.choice([2, 3, 12])
                p = os.path.join(d, *["L" * 120 + str(i) for i in range(n)])
                os.makedirs(p)
                self.good(os.path.join(p, "deep." + self.ext),
                          reach and self.recurse, "regular", n, "long path")
            if r.random() < .2:
                os.symlink(self.outdir, os.path.join(d, "ln%d" % depth))
                self.entries.append(("outdir", "dir symlink", depth, False,
                                     "dir"))


def job(st, item, scratch):
    seed, mode, recurse, ext, unpriv = item
    rng = random.Random("i01-%s" % (item,))
    os.chmod(scratch, 0o777)
    t = Tree(rng, ext if ext is not None else "harvest", recurse, unpriv)
    out = os.path.join(scratch, "outside")
    os.mkdir(out)
    t.outside = os.path.join(out, "linked.harvest")
    t.outdir = out
    with open(t.outside, "w") as f:
        f.write(HarvestFile("x", [Expr([T("ci", "linked")],
                                       "linked")]).to_xml())
    dirs = []
    for i in range(rng.randint(1, 3)):
        d = os.path.join(scratch, "d%d" % i)
        os.mkdir(d)
        t.fill(d, 0, True)
        dirs.append(d + rng.choice(["", "/", "/."]))
    # something to index in the last place that is read
    d = os.path.join(scratch, "zz")
    os.mkdir(d)
    t.good(os.path.join(d, "zz." + t.ext), True, "regular", 0, "ext")
    if rng.random() < .4:
        dirs.insert(rng.randrange(len(dirs) + 1),
                    os.path.join(scratch, "missing"))
        st.count("missing directories given")
    if rng.random() < .3:
        dirs.append(t.outside)          # not a directory
        st.count("files given as directories")
    dirs.append(d)
    listing = "\n".join("%s expected=%s" % (e, e[3]) for e in t.entries)
    rep = {"entries.txt": listing, "tree.txt": subprocess.run(
        ["find", scratch, "-ls"], stdout=subprocess.PIPE).stdout}
    pre = None
    if unpriv:
        for p in t.modes:
            os.chmod(p, 0)

        def pre():
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
    args = []
    for x in dirs:
        args += ["-I", x]
    if recurse:
        args.append("-r")
    if ext is not None:
        args += ["-e", ext]
    idx = os.path.join(scratch, "idx")
    try:
        if mode == "index":
            r = proc.run([BINS["mws-index"], "-o", idx] + args, scratch,
                         preexec=pre)
            proc.check_clean(r, "I01 mws-index", rep)
            if r.rc != 0:
                raise core.Violation("I01: mws-index failed although there "
                                     "are harvests\n" + r.describe(), "", rep)
            dargs = ["-D", idx]
        elif mode == "memory":
            dargs = args
        else:
            dargs = ["-D", idx] + args
        w = "I01 " + mode
        dm = search.start(BINS, scratch, dargs, w, rep, preexec=pre)
        try:
            a = search.Asker(dm, w, rep)
            ans = a.xml(T("apply", "", [QVar("f"), T("cn", "1")]))
            got = sorted(x.uri for x in ans.answers)
            got += [x.uri for x in a.xml(T("ci", "linked")).answers]
            got += [x.uri for x in a.xml(T("ci", "junk")).answers]
            want = sorted(e[0] for e in t.entries if e[3])
            if got != want:
                bad = [e for e in t.entries
                       if e[3] != (e[0] in got) and e[0][0] == "e"]
                raise core.Violation(
                    "I01 %s recurse=%s ext=%r: indexed files differ\n%s\n%s" %
                    (mode, recurse, t.ext, search.diff(want, got), bad[:8]),
                    "", rep)
            a.close()
            dm.check_healthy(w, rep)
            dm.finish(w, rep)
        finally:
            dm.kill()
    finally:
        for p in t.modes:
            os.chmod(p, 0o755)
    for e in t.entries:
        st.case((mode, recurse, ext, unpriv) + e[1:], True,
                {"kind": e[1], "name": e[4], "depth": e[2],
                 "indexed": bool(e[3])})
        st.count("%s %s" % (e[1], "indexed" if e[3] else "left out"))


def few_fds(st, item, scratch):
    """Many more files and directories than may be open at once."""
    seed, mode = item
    rng = random.Random("i01-fds-%s-%s" % (seed, mode))
    want = []
    top = os.path.join(scratch, "t")
    for i in range(400):
        d = os.path.join(top, *["s%d" % (i % k) for k in
                                (rng.choice([1, 7]), rng.choice([1, 11]),
                                 rng.choice([1, 90]))])
        os.makedirs(d, exist_ok=True)
        if i == 0 or rng.random() < .5:
            f = HarvestFile("x", [Expr([T("apply", "", [
                T("csymbol", "e%d" % i), T("cn", "1")])], "e%d" % i)])
            data = f.to_xml().encode()
            want.append("e%d" % i)
        else:
            data = rng.choice(JUNK)[1]
        with open(os.path.join(d, "f%d.harvest" % i), "wb") as o:
            o.write(data)
    for i in range(150):
        os.makedirs(os.path.join(top, "empty", "d%d" % i))
    lim = rng.choice([64, 100])

    def pre():
        resource.setrlimit(resource.RLIMIT_NOFILE, (lim, lim))
    args = ["-r", "-I", top]
    w = "I01 %s, at most %d open files" % (mode, lim)
    idx = os.path.join(scratch, "idx")
    if mode == "index":
        r = proc.run([BINS["mws-index"], "-o", idx] + args, scratch,
                     preexec=pre)
        proc.check_clean(r, w)
        if r.rc != 0:
            raise core.Violation("%s: mws-index failed\n%s" %
                                 (w, r.describe()))
        args = ["-D", idx]
    dm = search.start(BINS, scratch, args, w, preexec=pre)
    try:
        a = search.Asker(dm, w)
        ans = a.xml(T("apply", "", [QVar("f"), T("cn", "1")]))
        got = [x.uri for x in ans.answers]
        if sorted(got) != sorted(want):
            raise core.Violation("%s: indexed files differ\n%s" %
                                 (w, search.diff(want, got)))
        a.close()
        dm.check_healthy(w)
        dm.finish(w)
    finally:
        dm.kill()
    st.case(("fds", mode, seed), True)
    st.count("files read under a limit of open files", 400)


def any_job(st, item, scratch):
    (few_fds if len(item) == 2 else job)(st, item, scratch)


def body(ck):
    global BINS
    bins = build.build("asan", ["mwsd", "mws-index"])
    BINS = {}
    d = os.path.join(ck.scratch, "bin")
    os.mkdir(d, 0o755)
    for k, p in bins.items():    # where an unprivileged user can run them
        BINS[k] = shutil.copy(p, d)
        os.chmod(BINS[k], 0o755)
    items = []
    for i in range(core.pick(40, 160)):
        for mode, rec, ext, unp in (
                ("index", True, None, False), ("index", False, None, True),
                ("memory", True, None, True), ("built", True, "hx", True),
                ("memory", False, "mws-harvest", False),
                ("built", False, None, False),
                ("index", True, "x.y", False), ("memory", True, "h", False)):
            items.append(("%d-%d" % (ck.seed, i), mode, rec, ext, unp))
    items += [("%d-%d" % (ck.seed, i), m) for i in range(core.pick(2, 20))
              for m in ("index", "memory")]
    ck.parallel(any_job, items)


if __name__ == "__main__":
    core.main("I01", body, rule=RULE)
