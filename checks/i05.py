"""I05: failing or interrupted builds."""
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import time

from vlib import build, core, http, memsector, proc, search
from vlib.model import *

RULE = ("one evaluation = one build with an injected fault (a failing or "
        "fatal system call at one call site, a file size limit, a kill, an "
        "unusable location) whose exit status was taken and whose leftovers "
        "were loaded and asked; non-trivial = the fault hit the build; "
        "distinct by scenario, call and fault")

CALLS = ["write", "pwrite64", "openat", "mkdir", "rename", "unlink", "rmdir",
         "fsync", "fdatasync", "ftruncate", "close"]
ERR = {"write": ["ENOSPC", "EIO"], "pwrite64": ["ENOSPC"],
       "openat": ["EACCES", "ENOSPC"], "mkdir": ["ENOSPC"],
       "rename": ["EIO"], "unlink": ["EPERM"], "rmdir": ["EPERM"],
       "fsync": ["EIO"], "fdatasync": ["EIO"], "ftruncate": ["EIO"],
       "close": ["EIO"]}


class World:
    """Harvests, a complete index of them, and what it answers."""

    def __init__(self, rng, d, nexpr, big=0):
        g = Gen(rng, maxdepth=3)
        self.files = [g.file("a.harvest", nexpr), g.file("b.harvest", nexpr,
                                                         50)]
        if big:
            for i in range(big):
                self.files[0].items.append(Data(
                    "big%d" % i, "<p>%s</p>" % "".join(
                        rng.choice("abcdefgh") for _ in range(60000))))
                self.files[0].items.append(Expr(
                    [g.term()], "big%d" % i, "big%d" % i))
        self.d = d
        self.hd = os.path.join(d, "h")
        os.makedirs(self.hd)
        self.texts = search.write_files(self.hd, self.files, Style(rng, "m"))
        self.rep = {"harvest/" + k: v[:200000]
                    for k, v in self.texts.items()}
        roots = [r for f in self.files for e in f.items
                 if isinstance(e, Expr) for r in e.roots]
        self.qs = [query_xml(q, None, search.ALL, "json") for q in
                   [QVar("x")] + [g.query(roots) for _ in range(4)] +
                   [r.clone() for r in roots[:2]]]
        self.qs += [query_xml(QVar(""), None, 5, "xml"),
                    query_xml(QVar(""), None, 5, "mws-ids")]
        self.full = os.path.join(d, "full")
        search.build_index(BINS, d, self.full, [self.hd], what="I05")
        dm = search.start(BINS, d, ["-D", self.full], "I05 reference")
        self.ref = self.ask(dm, "I05 reference", {})
        dm.finish("I05 reference")

    def ask(self, dm, what, rep):
        c = http.Client(dm.port)
        out = []
        for q in self.qs:
            r = http.post(dm, c, q, what, rep)
            if r.status != 200:
                raise core.Violation("%s: query answered %d" %
                                     (what, r.status), "", rep)
            out.append(http.canon(r.body, r.get("content-type")))
        c.close()
        return out

    def same(self, dm, what, rep):
        got = self.ask(dm, what, rep)
        for q, a, b in zip(self.qs, self.ref, got):
            if a != b:
                raise core.Violation(
                    "%s: an answer differs from that of a complete index\n"
                    "complete: %.1500r\nthis one: %.1500r" % (what, a, b), "",
                    dict(rep, **{"query.xml": q}))

    def left(self, st, out, what, rep, exit_ok, kind):
        """Loads what a build left behind."""
        if not os.path.isdir(out):
            up = False
            st.count("%s: nothing left" % kind)
        else:
            dm = search.start(BINS, self.d, ["-D", out], what + ", leftovers",
                              rep, expect_up=False)
            try:
                up = dm.up
                if up:
                    self.same(dm, what + ", leftovers", rep)
                    dm.check_healthy(what + ", leftovers", rep)
                    dm.finish(what + ", leftovers", rep)
                    st.count("%s: leftovers complete" % kind)
                else:
                    if dm.report() or dm.p.returncode != 1:
                        raise core.Violation(
                            "%s: loading the leftovers crashed\n%s" %
                            (what, dm.describe()), "", rep)
                    st.count("%s: leftovers refused" % kind)
            finally:
                dm.kill()
        if exit_ok and not up:
            raise core.Violation(
                "%s: the build reports success but there is no usable index"
                % what, "", rep)


def judge(st, w, r, out, what, rep, kind, killed=False):
    """A finished build process."""
    if r.timed_out:
        raise core.Violation("%s: build hangs\n%s" % (what, r.describe()), "",
                             rep)
    if r.report or r.rc in proc.SAN_EXIT or (r.rc < 0 and not killed) or \
            r.rc in (134, 139):
        raise core.Violation("%s: build crashed\n%s" % (what, r.describe()),
                             "", rep)
    if r.rc < 0:
        st.count("%s: build killed" % kind)
    else:
        st.count("%s: build exits %d" % (kind, r.rc))
    w.left(st, out, what + " (exit %s)" % r.rc, rep, r.rc == 0, kind)


# --- system call faults ----------------------------------------------------
def strace_args(log, inject=None):
    a = ["strace", "-D", "-f", "-y", "-s", "8", "-o", log, "-e",
         "trace=" + ",".join(CALLS)]
    if inject:
        a += ["-e", "inject=" + inject]
    return a


def have_strace(scratch):
    try:
        log = os.path.join(scratch, "probe")
        r = subprocess.run(strace_args(log, "mkdir:error=EIO:when=1") +
                           ["mkdir", os.path.join(scratch, "probedir")],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=60)
        time.sleep(.05)
        return r.returncode != 0 and "INJECTED" in open(log).read()
    except (OSError, subprocess.TimeoutExpired):
        return False


def calls_of(log, out):
    """{(call, per-thread number): line} of the first thread's calls that
    concern `out`."""
    n = {}
    res = []
    first = None
    for line in open(log, errors="replace"):
        m = re.match(r"(\d+)\s+(\w+)\((.*)", line)
        if not m:
            continue
        pid, call, rest = m.groups()
        if first is None:
            first = pid
        n[(pid, call)] = n.get((pid, call), 0) + 1
        if pid != first or out not in rest:
            continue
        if call == "openat" and not re.search(r"O_CREAT|O_WRONLY|O_RDWR",
                                              rest):
            continue
        res.append((call, n[(pid, call)], line.strip()))
    return res


def strays(log, out):
    """Did an injected error hit something else than files of the index (or
    the program's messages)?"""
    return any("(INJECTED)" in x and out not in x and
               not re.search(r"write\([12]<", x)
               for x in open(log, errors="replace"))


def old_index(d, full):
    """An index that does not load, left in place of the new one."""
    shutil.copytree(full, d)
    _, dic = memsector.find_files(d)
    os.unlink(dic)


def traced(st, w, scenario, inject, tag, rep, plain=False):
    """One build under strace; returns (result, out, log text)."""
    out = os.path.join(w.d, "o" + tag)
    log = os.path.join(w.d, "strace" + tag)
    pre = strace_args(log, inject)
    # the sanitizers write to pipes of their own and cannot stand a fault that
    # stays: those runs use the uninstrumented programs
    bins = PLAIN if plain else BINS
    what = "I05 %s%s" % (scenario, ", " + inject if inject else "")
    if scenario == "build":
        r = proc.run(pre + [bins["mws-index"], "-I", w.hd, "-o", out], w.d)
    else:
        old_index(out, w.full2)
        port = proc.free_port()
        dm = proc.Daemon(pre + [bins["mwsd"], "-p", str(port), "-D", out,
                                "-I", w.hd, "-f"], w.d, port)
        try:
            if dm.up:
                w.same(dm, what + ", daemon serving", rep)
                dm.stop()
                r = proc.Result(0, b"", dm.output().encode(), dm.report(),
                                False, 0)
                st.count("rebuild: daemon serves after the fault")
            else:
                if "Address already in use" in dm.output():
                    raise core.Infra("port taken")
                r = proc.Result(dm.p.returncode, b"", dm.output().encode(),
                                dm.report(), False, 0)
        finally:
            dm.kill()
    for _ in range(100):
        t = open(log, errors="replace").read()
        if "+++ exited" in t or "+++ killed" in t:
            break
        time.sleep(.01)
    return r, out, t


def strace_job(st, item, scratch):
    _, seed, scenario, part, parts, big = item
    rng = random.Random("i05-%s" % seed)
    w = World(rng, scratch, 3, big)
    if scenario == "rebuild":
        w2 = os.path.join(scratch, "w2")
        os.makedirs(w2)
        w.full2 = World(rng, w2, 3).full
    faults = []
    for plain in (False, True):
        tag = "base%d" % plain
        r, out, t = traced(st, w, scenario, None, tag, {}, plain)
        if r.rc != 0:
            raise core.Violation("I05: plain %s fails\n%s" %
                                 (scenario, r.describe()), "", w.rep)
        base = calls_of(os.path.join(w.d, "strace" + tag), out)
        if not base:
            raise core.Infra("no calls seen:\n" + t[-2000:])
        st.maximum("calls with faults injected, %s" % scenario, len(base))
        for call, n, line in base:
            if plain:
                faults.append((call, n, "error=%s" % ERR[call][0],
                               "when=%d+" % n, True))
                continue
            for e in ERR[call]:
                faults.append((call, n, "error=%s" % e, "when=%d" % n, False))
            faults.append((call, n, "signal=SIGKILL", "when=%d" % n, False))
        shutil.rmtree(out)
    if big:
        # the many identical calls in the middle are sampled
        faults = rng.sample(faults, min(len(faults), core.pick(60, 600)))
    for i, (call, n, f, when, plain) in enumerate(faults):
        if i % parts != part:
            continue
        inject = "%s:%s:%s" % (call, f, when)
        rep = dict(w.rep, **{"fault.txt": "%s: %s\n" % (scenario, inject)})
        out = os.path.join(w.d, "o%d" % i)
        log = os.path.join(w.d, "strace%d" % i)
        try:
            r, out, t = traced(st, w, scenario, inject, "%d" % i, rep, plain)
        except core.Violation:
            if "SIGKILL" in f or not strays(log, out):
                raise
            r = None
        if "SIGKILL" not in f and strays(log, out):
            # other threads count their calls from one too; a fault in the
            # network or the sanitizers' own pipes says nothing
            st.count("fault hit something else as well")
            shutil.rmtree(out, ignore_errors=True)
            continue
        hit = [x for x in t.splitlines() if "(INJECTED)" in x or
               "killed by SIGKILL" in x]
        if not hit:
            st.count("fault not reached")
            shutil.rmtree(out, ignore_errors=True)
            continue
        st.case((scenario, inject), True, {"scenario": scenario,
                                           "fault": inject, "exit": r.rc,
                                           "hit": hit[0][:150]})
        st.count("faults in %s" % call)
        judge(st, w, r, out, "I05 %s, %s" % (scenario, inject), rep, scenario,
              killed="SIGKILL" in f)
        shutil.rmtree(out, ignore_errors=True)
        os.unlink(os.path.join(w.d, "strace%d" % i))


# --- limits and kills ------------------------------------------------------
def limit_job(st, item, scratch):
    """A file size limit (as a full disk) at many sizes; the signal it sends
    is ignored or fatal."""
    _, seed, n, big = item
    rng = random.Random("i05l-%s" % seed)
    w = World(rng, scratch, 4, big)
    sizes = set()
    for root, _, fs in os.walk(w.full):
        for f in fs:
            s = os.path.getsize(os.path.join(root, f))
            sizes |= {s - 1, s, s // 2}
    top = max(sizes)
    ms, dic = memsector.find_files(w.full)
    for p in (ms, dic):
        s = os.path.getsize(p)
        sizes |= {1, s - 1, s - 4, s // 3, 28, 27}
    sizes = [s for s in sizes if 0 <= s]
    while len(sizes) < n:
        sizes.append(rng.randrange(top + 100))
    rng.shuffle(sizes)
    for i, lim in enumerate(sizes[:n]):
        ignored = rng.random() < .7
        out = os.path.join(scratch, "l%d" % i)

        def pre():
            if ignored:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            else:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        what = "I05 build with files limited to %d bytes (%s)" % (
            lim, "write error" if ignored else "signal")
        r = proc.run([BINS["mws-index"], "-I", w.hd, "-o", out], scratch,
                     preexec=pre, timeout=200)
        if r.rc == -signal.SIGXFSZ and not ignored:
            r.report = ""
        judge(st, w, r, out, what, w.rep, "size limit",
              killed=not ignored)
        st.case(("limit", lim, ignored, seed), True,
                {"file size limit": lim, "exit": r.rc})
        shutil.rmtree(out, ignore_errors=True)


def kill_job(st, item, scratch):
    """Kills at random times."""
    _, seed, n, big = item
    rng = random.Random("i05k-%s" % seed)
    w = World(rng, scratch, 40, big)
    t0 = time.time()
    out = os.path.join(scratch, "time")
    search.build_index(BINS, scratch, out, [w.hd], what="I05")
    wall = time.time() - t0
    shutil.rmtree(out)
    for i in range(n):
        out = os.path.join(scratch, "k%d" % i)
        sig = rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM,
                          signal.SIGINT])
        delay = rng.random() * wall * 1.2
        log = proc.newlog(scratch)
        with open(log + "_o", "wb") as o:
            p = subprocess.Popen([BINS["mws-index"], "-I", w.hd, "-o", out],
                                 stdin=subprocess.DEVNULL, stdout=o, stderr=o,
                                 cwd=scratch, env=proc.san_env(log))
        time.sleep(delay)
        p.send_signal(sig)
        rc = p.wait()
        what = "I05 build, signal %d after %.3f s" % (sig, delay)
        r = proc.Result(rc, b"", open(log + "_o", "rb").read(),
                        proc.san_report(log), False, 0)
        if rc not in (0, -sig):
            raise core.Violation("%s: exit status %s" % (what, rc), "", w.rep)
        judge(st, w, r, out, what, w.rep, "signal", killed=True)
        st.case(("kill", seed, i, sig), rc != 0, {"signal": int(sig),
                                                 "after s": round(delay, 3),
                                                 "exit": rc})
        # whatever was left, a forced rebuild works
        if i % 4 == 0 and os.path.isdir(out):
            dm = search.start(BINS, scratch, ["-D", out, "-I", w.hd, "-f"],
                              what + ", forced rebuild", w.rep)
            try:
                w.same(dm, what + ", forced rebuild", w.rep)
                dm.finish(what + ", forced rebuild", w.rep)
            finally:
                dm.kill()
            st.count("forced rebuilds over leftovers")
        shutil.rmtree(out, ignore_errors=True)


# --- unusable locations and inputs -----------------------------------------
NOBODY = 65534


def place_job(st, item, scratch):
    _, seed = item
    rng = random.Random("i05p-%s" % seed)
    w = World(rng, scratch, 4)
    os.chmod(scratch, 0o755)
    names = sorted(os.listdir(w.full))
    ms, dic = memsector.find_files(w.full)
    dbs = [x for x in names if os.path.isdir(os.path.join(w.full, x))]
    n = [0]

    def attempt(name, prep, unpriv=False, harvest=None, expect=1):
        n[0] += 1
        base = os.path.join(scratch, "p%d" % n[0])
        os.mkdir(base)
        out = os.path.join(base, "o")
        out = prep(base, out) or out
        if unpriv:
            os.chmod(base, 0o755)

        def pre():
            if unpriv:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
        what = "I05 build, " + name
        r = proc.run([BINS["mws-index"], "-I", harvest or w.hd, "-o", out],
                     scratch, preexec=pre)
        st.case(("place", name, seed), True, {"situation": name,
                                              "exit": r.rc})
        proc.check_clean(r, what, w.rep)
        if expect is not None and r.rc != expect:
            raise core.Violation("%s: exit status %d\n%s" %
                                 (what, r.rc, r.describe()), "", w.rep)
        for x in (ms, dic):
            # a reader of /dev/full gets zeros without end
            x = os.path.join(out, os.path.basename(x))
            if os.path.islink(x):
                os.unlink(x)
        judge(st, w, r, out, what, w.rep, "location")
        subprocess.run(["chmod", "-R", "u+rwx", base])
        shutil.rmtree(base)

    mk = lambda b, o: os.mkdir(o)

    def putfile(rel, data=b"x"):
        def f(b, o):
            p = os.path.join(o, rel) if rel else o
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as fh:
                fh.write(data)
        return f

    def putdir(rel, mode=0o755):
        def f(b, o):
            os.makedirs(os.path.join(o, rel))
            os.chmod(os.path.join(o, rel), mode)
        return f

    def putlink(rel, target):
        def f(b, o):
            os.makedirs(o, exist_ok=True)
            os.symlink(target, os.path.join(o, rel))
        return f
    msn, dicn = os.path.basename(ms), os.path.basename(dic)
    attempt("nothing special", mk, expect=0)
    attempt("directory to be created", lambda b, o: None, expect=0)
    attempt("location is a file", putfile(""))
    attempt("parent missing", lambda b, o: os.path.join(o, "x", "y"))
    attempt("parent is a file", lambda b, o: (putfile("")(b, o),
                                              os.path.join(o, "x"))[1])
    attempt("very long name", lambda b, o: o + "n" * 5000)
    attempt("index file is a directory", putdir(msn))
    attempt("dictionary is a directory", putdir(dicn))
    attempt("dictionary goes to a full device", putlink(dicn, "/dev/full"))
    attempt("index file goes to a full device", putlink(msn, "/dev/full"))
    attempt("index file links nowhere", putlink(msn, "/nonexistent/x"))
    attempt("dictionary links nowhere", putlink(dicn, "/nonexistent/x"))
    for d in dbs:
        attempt("%s is a file" % d, putfile(d))
        attempt("%s is an empty directory" % d, putdir(d), expect=None)
        attempt("%s links nowhere" % d, putlink(d, "/nonexistent/x"))
        attempt("%s has a stray CURRENT" % d, putfile(
            d + "/CURRENT", b"MANIFEST-000009\n"))
    if os.getuid() == 0:
        def ro(b, o):
            os.mkdir(o)
            os.chmod(o, 0o555)
        attempt("location not writable", ro, True)
        attempt("parent not writable", lambda b, o: None, True)

        def half(rel):
            def f(b, o):
                os.mkdir(o)
                os.chown(o, NOBODY, NOBODY)
                os.makedirs(os.path.join(o, rel))
                os.chmod(os.path.join(o, rel), 0o555)
            return f
        for d in dbs:
            attempt("%s not writable" % d, half(d), True)

        def rofile(rel):
            def f(b, o):
                os.mkdir(o)
                os.chown(o, NOBODY, NOBODY)
                open(os.path.join(o, rel), "w").close()
                os.chmod(os.path.join(o, rel), 0o444)
            return f
        attempt("dictionary not writable", rofile(dicn), True)
        attempt("index file not writable", rofile(msn), True)
    # nothing to index
    e = os.path.join(scratch, "none")
    os.mkdir(e)
    attempt("no harvests", mk, harvest=e)
    attempt("harvest directory missing", mk, harvest=e + "/missing")
    open(e + "/a.harvest", "w").write("garbage")
    attempt("only a broken harvest", mk, harvest=e)
    open(e + "/a.harvest", "w").write(
        "<mws:harvest xmlns:mws='http://search.mathweb.org/ns'>"
        "</mws:harvest>")
    attempt("a harvest without expressions", mk, harvest=e)
    open(e + "/a.harvest", "w").write("")
    attempt("an empty harvest", mk, harvest=e)
    os.rename(e + "/a.harvest", e + "/a.txt")
    attempt("no file with the extension", mk, harvest=e)


def job(st, item, scratch):
    {"strace": strace_job, "limit": limit_job, "kill": kill_job,
     "place": place_job}[item[0]](st, item, scratch)


def body(ck):
    global BINS, PLAIN
    BINS = build.build("asan", ["mwsd", "mws-index"])
    PLAIN = build.build("plain", ["mwsd", "mws-index"])
    items = []
    if have_strace(ck.scratch):
        for s in range(core.pick(1, 4)):
            seed = "%d-%d" % (ck.seed, s)
            for sc in ("build", "rebuild"):
                items += [("strace", seed, sc, p, 8, 0) for p in range(8)]
            if core.THOROUGH:
                items += [("strace", seed + "big", sc, p, 8, 110)
                          for p in range(8) for sc in ("build", "rebuild")]
    else:
        ck.stats.count("strace not usable")
    items += [("place", "%d-%d" % (ck.seed, i))
              for i in range(core.pick(1, 6))]
    items += [("limit", "%d-%d" % (ck.seed, i), core.pick(22, 80),
               0 if i % 4 else 80) for i in range(core.pick(4, 32))]
    items += [("kill", "%d-%d" % (ck.seed, i), core.pick(12, 60),
               0 if i % 2 else 40) for i in range(core.pick(4, 32))]
    ck.parallel(job, items)


if __name__ == "__main__":
    core.main("I05", body, rule=RULE, assumptions=[
        "faults are injected in the system calls that concern the output "
        "directory, one call site or from one call site on; power loss (data "
        "written but not on disk) is not simulated",
        "complete = answers like an index built without faults by the same "
        "program (that those are right is Q07's business)"])
